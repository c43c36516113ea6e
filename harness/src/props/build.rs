//! C01 round trip through the library, C02 independent decoding.
use crate::blob::Blob;
use crate::engine::*;
use crate::io::DedupStore;
use crate::model::*;
use crate::sut::*;
use crate::wiiref::*;
use disc_riider::WiiIsoReader;
use std::io::Cursor;

pub struct Disc {
    pub hdr: RHdr,
    pub region: [u8; 32],
    pub parts: Vec<PartDef>,
    pub lens: Lens,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Small,
    Single,
    Multi,
    Wide,
    Big,
}

pub fn gen_disc(ctx: &mut Ctx, kind: Kind) -> Disc {
    let src = &mut ctx.src;
    let hdr = gen_hdr(src);
    let region = src.arr();
    let n = match kind {
        Kind::Multi => src.usize(1, 3),
        _ => 1,
    };
    let mut parts = vec![];
    let mut aims = vec![];
    for _ in 0..n {
        let o = TreeOpts {
            max_nodes: if kind == Kind::Multi { 10 } else { 24 },
            max_depth: 6,
            no_case_collisions: false,
            big: kind != Kind::Small,
        };
        let mut d = gen_part(src, &o, max_contents());
        match kind {
            Kind::Wide => widen(src, &mut d.tree),
            Kind::Big if src.chance(1, 4) => {
                // an executable of several megabytes
                let end = 0x1_000_000 * src.range(1, 2) as u32 + src.range(0, 0x400) as u32 - 0x200;
                d.dol = big_dol(src, end);
            }
            Kind::Big if src.chance(1, 8) => {
                // the apploader as well
                let (a, b) = (src.range(0x1000, 0x1_000_100) as u32, src.range(0, 0x1100) as u32);
                let s = src.below(1 << 16);
                d.app = if src.bool() { app_of_len(a, b, s) } else { app_of_len(b, a, s) };
            }
            Kind::Big => {
                let k = src.range(1, 2);
                let len = k * 0x1_000_000 + src.range(0, 0x100) - 0x80;
                let name = "BIG".to_string();
                d.tree.retain(|x| x.name() != "BIG");
                let at = src.usize(0, d.tree.len());
                let data = gen_blob(src, len);
                d.tree.insert(at, Node::File { name, data, pad: 0 });
            }
            _ => {}
        }
        if kind != Kind::Small {
            aims.push(aim(src, &mut d, 30));
        }
        parts.push(d);
    }
    let lens = *src.pick(&[Lens::Real, Lens::Real, Lens::Junk, Lens::Zero]);
    for d in &parts {
        ctx.describe(describe_part(d));
    }
    for a in aims {
        ctx.label(a);
    }
    classify(ctx, &parts);
    Disc { hdr, region, parts, lens }
}

pub fn classify(ctx: &mut Ctx, parts: &[PartDef]) {
    let g = GDATA as u64;
    let mut nt = parts.len() > 1;
    for d in parts {
        let l = predict(d);
        let groups = al(l.end.max(1), g) / g;
        ctx.label_if(groups == 1, "one group");
        ctx.label_if(groups >= 2, "two or more groups");
        ctx.label_if(groups >= 5, "five or more groups");
        ctx.label_if(l.fst / g != (l.fst_end - 1) / g, "file table straddles a group boundary");
        ctx.label_if(l.dol / g != l.fst / g, "executable straddles a group boundary");
        ctx.label_if(l.files.iter().any(|f| f.1 > f.0 && f.0 / g != (f.1 - 1) / g), "file straddles a group boundary");
        ctx.label_if(l.files.iter().any(|f| f.1 > f.0 && f.1 % g == 0), "file ends exactly on a group boundary");
        ctx.label_if(l.end % g == 0, "partition data ends exactly on a group boundary");
        ctx.label_if(l.fst >= g, "file table outside the first group");
        ctx.label_if(d.ticket.key_idx == 1, "korean common key");
        ctx.label_if(d.tree.is_empty(), "empty tree");
        ctx.label_if(depth(&d.tree) >= 4, "depth 4 or more");
        ctx.label_if(count(&d.tree).0 + count(&d.tree).1 > 40, "wide tree");
        ctx.label_if(d.tmd.contents.len() > 1, "several TMD contents");
        nt |= groups >= 2 || count(&d.tree).0 >= 2;
    }
    ctx.label_if(parts.len() > 1, "several partitions");
    if nt {
        ctx.nontrivial();
    }
}

fn read_back(d: &Disc, img: &[u8]) -> Result<(), String> {
    let mut r = WiiIsoReader::open(Cursor::new(img)).map_err(|e| format!("open: {e}"))?;
    check_disc_read(&mut r, d)
}

pub fn check_disc_read<RS: std::io::Read + std::io::Seek>(r: &mut WiiIsoReader<RS>, d: &Disc) -> Result<(), String> {
    let h = from_hdr(r.get_header());
    if h != d.hdr {
        return Err(show("disc header", h, d.hdr.clone()));
    }
    if *r.get_region() != d.region {
        return Err(show("region", *r.get_region(), d.region));
    }
    let ps = r.partitions().to_vec();
    if ps.len() != d.parts.len() {
        return Err(format!("{} partitions instead of {}", ps.len(), d.parts.len()));
    }
    for (i, (e, def)) in ps.into_iter().zip(&d.parts).enumerate() {
        if type_num(e.get_type()) != def.ptype {
            return Err(format!("partition {i} has type {:?}", e.get_type()));
        }
        let mut p = r.open_partition(e).map_err(|e| format!("open_partition {i}: {e}"))?;
        check_read_part(r, &mut p, def).map_err(|e| format!("partition {i}: {e}"))?;
    }
    Ok(())
}

fn roundtrip(ctx: &mut Ctx, kind: Kind) -> Result<(), String> {
    let d = gen_disc(ctx, kind);
    let img = build_vec(&d.hdr, d.region, &d.parts, d.lens)?;
    read_back(&d, &img)
}

fn rt_single(ctx: &mut Ctx) -> Result<(), String> {
    roundtrip(ctx, Kind::Single)
}
fn rt_multi(ctx: &mut Ctx) -> Result<(), String> {
    roundtrip(ctx, Kind::Multi)
}
fn rt_wide(ctx: &mut Ctx) -> Result<(), String> {
    roundtrip(ctx, Kind::Wide)
}
fn rt_big(ctx: &mut Ctx) -> Result<(), String> {
    roundtrip(ctx, Kind::Big)
}

static ZEROS: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();

/// more than 4 GiB of partition data and a second partition behind it
pub fn giant_disc(ctx: &mut Ctx) -> Disc {
    let v = ctx.src.below(2);
    let src = &mut ctx.src;
    let hdr = gen_hdr(src);
    let region = src.arr();
    let o = TreeOpts { max_nodes: 4, max_depth: 3, no_case_collisions: false, big: false };
    let mut a = gen_part(src, &o, 3);
    let mut b = gen_part(src, &o, 3);
    a.ptype = v as u32;
    b.ptype = 0;
    let chunk = 256u64 << 20;
    for i in 0..16 {
        a.tree.push(Node::File { name: format!("zero{i:02}"), data: Blob::new(chunk - (i % 3) * 5, 1, 0), pad: 0 });
    }
    a.tree.push(Node::File { name: "past4g-a".into(), data: Blob::new(100_000, 0, 77), pad: 0 });
    a.tree.push(Node::File { name: "past4g-b".into(), data: Blob::new(0x1F0000 + 17, 0, 78), pad: 3 });
    for d in [&a, &b] {
        ctx.describe(describe_part(d));
    }
    ctx.label("image larger than 4 GiB");
    ctx.nontrivial();
    Disc { hdr, region, parts: vec![a, b], lens: Lens::Real }
}

pub fn build_giant(d: &Disc) -> Result<DedupStore, String> {
    let z: &'static [u8] = ZEROS.get_or_init(|| vec![0u8; 256 << 20]);
    let mut st = DedupStore::new(0x70000);
    {
        let mut b = disc_riider::builder::WiiDiscBuilder::create(&mut st, lib_hdr(&d.hdr), d.region);
        for p in &d.parts {
            let mut def = Def::new(p);
            def.zeros = Some(z);
            add(&mut b, &mut def, &mut |_| {}).map_err(|e| format!("add_partition failed: {e}"))?;
        }
        b.finish().map_err(|e| format!("finish failed: {e}"))?;
    }
    Ok(st)
}

fn rt_giant(ctx: &mut Ctx) -> Result<(), String> {
    let d = giant_disc(ctx);
    let st = build_giant(&d)?;
    let mut r = WiiIsoReader::open(st).map_err(|e| format!("open: {e}"))?;
    check_disc_read(&mut r, &d)
}

pub fn c01() -> Property {
    let mut p = Property::new(
        "C01",
        "one case = one generated disc definition (header, region, partitions with ticket, TMD, certificates, system areas, file tree; sizes aimed at block, group and 16 MiB boundaries), built, opened with the library's reader and compared item by item; non-trivial = more than one partition, or two or more groups of data, or at least two files",
        vec![
            Suite::new("single", 3200, 30000, rt_single),
            Suite::new("multi", 1000, 10000, rt_multi),
            Suite::new("wide", 600, 6000, rt_wide),
            Suite::new("big", 240, 2000, rt_big),
            Suite::enumerate("giant", 1, rt_giant),
        ],
    );
    p.assumptions = &["definitions respect the layout limits of the format: bi2 at most 0x2000 bytes, apploader and DOL headers consistent with their data, metadata below 0x8000, titles of at most 64 bytes without NUL (any other bytes)"];
    p
}

fn decode_and_compare(d: &Disc, img: &[u8]) -> Result<(), String> {
    let di = decode_image(img)?;
    if di.hdr != d.hdr {
        return Err(show("disc header", di.hdr, d.hdr.clone()));
    }
    if di.region != d.region {
        return Err(show("region", di.region, d.region));
    }
    if di.parts.len() != d.parts.len() {
        return Err(format!("{} partitions instead of {}", di.parts.len(), d.parts.len()));
    }
    for (i, (p, def)) in di.parts.iter().zip(&d.parts).enumerate() {
        check_decoded_part(p, def).map_err(|e| format!("partition {i}: {e}"))?;
    }
    Ok(())
}

fn independent(ctx: &mut Ctx, kind: Kind) -> Result<(), String> {
    let d = gen_disc(ctx, kind);
    let img = build_vec(&d.hdr, d.region, &d.parts, d.lens)?;
    decode_and_compare(&d, &img)
}
fn in_single(ctx: &mut Ctx) -> Result<(), String> {
    independent(ctx, Kind::Single)
}
fn in_multi(ctx: &mut Ctx) -> Result<(), String> {
    independent(ctx, Kind::Multi)
}
fn in_wide(ctx: &mut Ctx) -> Result<(), String> {
    independent(ctx, Kind::Wide)
}
fn in_big(ctx: &mut Ctx) -> Result<(), String> {
    independent(ctx, Kind::Big)
}

/// a destination that already holds other data: nothing of it may survive inside the image's structures
fn in_reused(ctx: &mut Ctx) -> Result<(), String> {
    let d = gen_disc(ctx, Kind::Single);
    let mut dirty = Blob::new(0x50000 + 0x20000 + 3 * GROUP as u64, 0, 4242).to_vec();
    // leave the region between known structures alone where the format needs zeroes
    let keep = ctx.src.usize(0, 2);
    match keep {
        0 => {}
        1 => dirty.truncate(0x60000),
        _ => dirty.truncate(0x70000 + GROUP),
    }
    // partition tables 2..4 are not written by the builder: a new image starts from an empty stream there
    dirty[0x40000..0x40020].fill(0);
    let mut cur = Cursor::new(dirty);
    build_on(&mut cur, &d.hdr, d.region, &d.parts, d.lens)?;
    ctx.label("destination with old content");
    decode_and_compare(&d, &cur.into_inner())
}

fn in_giant(ctx: &mut Ctx) -> Result<(), String> {
    let d = giant_disc(ctx);
    let st = build_giant(&d)?;
    // decode page-wise: identical pages are decoded once
    let head = st.to_vec(0, 0x50000);
    let table = part_table(&head)?;
    if table.len() != 2 {
        return Err(format!("{} partitions instead of 2", table.len()));
    }
    for ((off, ptype), def) in table.iter().zip(&d.parts) {
        if *ptype != def.ptype {
            return Err("partition type".into());
        }
        let ph = st.to_vec(*off, 0x20000);
        let ticket = RTicket::decode(&ph)?;
        if ticket != def.ticket {
            return Err(show("ticket", ticket, def.ticket.clone()));
        }
        let data_off = (get32(&ph, 0x2B8) as u64) << 2;
        let data_size = (get32(&ph, 0x2BC) as u64) << 2;
        let h3_off = (get32(&ph, 0x2B4) as u64) << 2;
        let h3 = st.to_vec(off + h3_off, 0x18000);
        let groups = data_size / GDATA as u64;
        if data_size % GDATA as u64 != 0 {
            return Err("data size is not whole groups".into());
        }
        if off + data_off + groups * GROUP as u64 > st.len {
            return Err("partition data reaches beyond the image".into());
        }
        let mut cache: std::collections::HashMap<u64, (Vec<u8>, std::sync::Arc<(Vec<u8>, [u8; 20])>)> = Default::default();
        let mut plains = vec![];
        for g in 0..groups {
            let e = st.to_vec(off + data_off + g * GROUP as u64, GROUP as u64);
            let mut h = 0u64;
            for i in (0..e.len()).step_by(997) {
                h = mix(h ^ e[i] as u64 ^ (i as u64) << 8);
            }
            let v = match cache.get(&h) {
                Some((b, v)) if *b == e => v.clone(),
                _ => {
                    let v = std::sync::Arc::new(decrypt_group(&e, &ticket.title_key).map_err(|x| format!("group {g}: {x}"))?);
                    cache.insert(h, (e, v.clone()));
                    v
                }
            };
            if h3[g as usize * 20..g as usize * 20 + 20] != v.1 {
                return Err(format!("H3 entry of group {g} does not match"));
            }
            plains.push(v);
        }
        let tmd_off = (get32(&ph, 0x2A8) as u64) << 2;
        let tmdb = &ph[tmd_off as usize..(tmd_off + get32(&ph, 0x2A4) as u64) as usize];
        check_tmd(tmdb, &RTmd::decode(tmdb)?, &h3, data_size)?;
        let at = |off: u64, len: u64| -> Result<Vec<u8>, String> {
            if off + len > data_size {
                return Err(format!("{off:#x}+{len:#x} lies outside the partition data"));
            }
            let mut v = Vec::with_capacity(len as usize);
            let mut o = off;
            while (v.len() as u64) < len {
                let g = (o / GDATA as u64) as usize;
                let i = (o % GDATA as u64) as usize;
                let n = (GDATA - i).min(len as usize - v.len());
                v.extend_from_slice(&plains[g].0[i..i + n]);
                o += n as u64;
            }
            Ok(v)
        };
        let hdr = RHdr::decode(&at(0, 0x440)?)?;
        let (fst, _) = parse_fst(&at(hdr.fst_off, hdr.fst_sz)?)?;
        same_ftree(&fst, &def.tree)?;
        let mut areas: Vec<_> = flat(&fst).into_iter().filter(|f| f.2 > 0).map(|(p, o, l)| (o, o + l as u64, p)).collect();
        areas.sort();
        for w in areas.windows(2) {
            if w[0].1 > w[1].0 {
                return Err(format!("{:?} and {:?} overlap", w[0].2, w[1].2));
            }
        }
        for ((path, o, len), (_, blob)) in flat(&fst).into_iter().zip(files(&def.tree)) {
            blob.matches(&at(o, len as u64)?).map_err(|e| format!("{path:?}: {e}"))?;
        }
    }
    Ok(())
}

pub fn c02() -> Property {
    let mut p = Property::new(
        "C02",
        "one case = one generated disc definition, built and then decoded by the independent decoder, which verifies every AES block, every H0/H1/H2/H3 entry, the TMD hash, size and fake signature, the range and disjointness of all areas, and compares all contents; non-trivial = more than one partition, or two or more groups of data, or at least two files",
        vec![
            Suite::new("single", 2400, 25000, in_single),
            Suite::new("multi", 600, 8000, in_multi),
            Suite::new("wide", 500, 5000, in_wide),
            Suite::new("big", 180, 1500, in_big),
            Suite::new("reused-destination", 400, 3000, in_reused),
            Suite::enumerate("giant", 1, in_giant),
        ],
    );
    p.assumptions = &["the reference decoder states the format independently (AES and SHA-1 primitives come from the same crates)"];
    p
}
