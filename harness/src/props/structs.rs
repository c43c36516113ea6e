//! C14: every on-disc structure against the independent byte layout, both directions.
use crate::engine::*;
use crate::model::*;
use crate::sut::*;
use crate::wiiref::*;
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::structs::*;
use std::fmt::Debug;
use std::io::{Cursor, Seek, SeekFrom};

type Reserved = &'static [(usize, usize)];

/// bytes -> value -> bytes; `res` lists the reserved byte ranges (start, end) of the structure
fn both<T, M>(ctx: &mut Ctx, what: &str, model: &M, bytes: &[u8], value: T, res: Reserved, back: impl Fn(&T) -> M) -> Result<(), String>
where
    T: for<'a> binrw::BinRead<Args<'a> = ()> + for<'a> binrw::BinWrite<Args<'a> = ()> + PartialEq + Debug + Clone,
    M: PartialEq + Debug + Clone,
{
    generic(ctx, what, model, bytes, value, res, back, |c| c.read_be::<T>(), |c, v| c.write_be(v))
}

#[allow(clippy::too_many_arguments)]
fn generic<T, M>(
    ctx: &mut Ctx,
    what: &str,
    model: &M,
    bytes: &[u8],
    value: T,
    res: Reserved,
    back: impl Fn(&T) -> M,
    rd: impl Fn(&mut Cursor<Vec<u8>>) -> binrw::BinResult<T>,
    wr: impl Fn(&mut Cursor<Vec<u8>>, &T) -> binrw::BinResult<()>,
) -> Result<(), String>
where
    T: PartialEq + Debug + Clone,
    M: PartialEq + Debug + Clone,
{
    // parse at an arbitrary position inside a larger stream, with junk around
    let pre = ctx.src.usize(0, 70);
    let post = ctx.src.usize(0, 70);
    let mut buf = vec![0xA5u8; pre + bytes.len() + post];
    buf[pre..pre + bytes.len()].copy_from_slice(bytes);
    let mut c = Cursor::new(buf.clone());
    c.seek(SeekFrom::Start(pre as u64)).unwrap();
    let v = rd(&mut c).map_err(|e| format!("{what}: well-formed bytes are refused: {e}"))?;
    if c.position() != (pre + bytes.len()) as u64 {
        return Err(format!("{what}: parsing consumes {:#x} bytes instead of {:#x}", c.position() - pre as u64, bytes.len()));
    }
    let got = back(&v);
    if got != *model {
        return Err(show(&format!("{what} parsed from bytes"), got, model.clone()));
    }
    if v != value {
        return Err(show(&format!("{what}: parsed value and constructed value"), v, value));
    }
    // write over junk
    let mut c = Cursor::new(vec![0x5Au8; pre + bytes.len() + post]);
    c.seek(SeekFrom::Start(pre as u64)).unwrap();
    wr(&mut c, &value).map_err(|e| format!("{what}: writing fails: {e}"))?;
    if c.position() != (pre + bytes.len()) as u64 {
        return Err(format!("{what}: writing moves {:#x} bytes instead of {:#x}", c.position() - pre as u64, bytes.len()));
    }
    let w = c.into_inner();
    short_diff(&format!("{what} written"), &w[pre..pre + bytes.len()], bytes)?;
    if w[..pre].iter().chain(&w[pre + bytes.len()..]).any(|b| *b != 0x5A) {
        return Err(format!("{what}: writing touches bytes outside the structure"));
    }
    // reserved bytes carry no meaning
    if !res.is_empty() {
        let mut j = buf;
        for (a, b) in res {
            for x in &mut j[pre + a..pre + b] {
                *x = ctx.src.int(8) as u8;
            }
        }
        let mut c = Cursor::new(j);
        c.seek(SeekFrom::Start(pre as u64)).unwrap();
        let v = rd(&mut c).map_err(|e| format!("{what}: refused because of reserved bytes: {e}"))?;
        let got = back(&v);
        if got != *model {
            return Err(show(&format!("{what} parsed with other reserved bytes"), got, model.clone()));
        }
    }
    // a truncated structure is refused
    if ctx.src.chance(1, 4) {
        let cut = ctx.src.usize(0, bytes.len() - 1);
        // trailing padding may be skipped by seeking
        let mut c = Cursor::new(bytes[..cut].to_vec());
        let significant = if what.starts_with("certificate") { bytes.len() - 52 } else { res.iter().find(|(_, b)| *b == bytes.len()).map_or(bytes.len(), |r| r.0) };
        if cut < significant && rd(&mut c).is_ok() {
            return Err(format!("{what}: parsed from {cut:#x} of {:#x} bytes", bytes.len()));
        }
    }
    Ok(())
}

const TICKET_RES: Reserved = &[(0x104, 0x140), (0x1BC, 0x1BF), (0x1CF, 0x1D0), (0x1F2, 0x222)];
const TMD_RES: Reserved = &[(0x104, 0x140), (0x183, 0x184), (0x1D2, 0x1D8), (0x1E2, 0x1E4)];
const HDR_RES: Reserved = &[(0x0A, 0x18), (0x62, 0x400), (0x408, 0x420), (0x43C, 0x440)];
const APP_RES: Reserved = &[(0, 0x14)];

fn ticket(ctx: &mut Ctx) -> Result<(), String> {
    let t = gen_ticket(&mut ctx.src);
    ctx.nontrivial();
    ctx.label_if(t.key_idx == 1, "korean common key");
    ctx.describe(format!("ticket key index {} title id {:02x?} key {:02x?}", t.key_idx, t.title_id, t.title_key));
    both(ctx, "ticket", &t, &t.encode(), lib_ticket(&t), TICKET_RES, from_ticket)?;
    // other key indices are refused in both directions
    let mut b = t.encode();
    b[0x1F1] = 2 + ctx.src.below(254) as u8;
    if Cursor::new(b.clone()).read_be::<Ticket>().is_ok() {
        return Err(format!("ticket with common key index {} is accepted", b[0x1F1]));
    }
    let mut v = lib_ticket(&t);
    v.common_key_idx = b[0x1F1];
    if Cursor::new(vec![]).write_be(&v).is_ok() {
        return Err(format!("ticket with common key index {} is written", b[0x1F1]));
    }
    // unknown signature types are refused
    let mut b = t.encode();
    let st = ctx.src.int(32) as u32;
    put32(&mut b, 0, st);
    let known = (0x10000..=0x10002).contains(&st);
    if Cursor::new(b).read_be::<Ticket>().is_ok() != known {
        return Err(format!("ticket with signature type {st:#x}: accepted = {}", !known));
    }
    Ok(())
}

fn tmd(ctx: &mut Ctx) -> Result<(), String> {
    let n = if ctx.src.chance(1, 10) { 2000 } else { 20 };
    let mut t = gen_tmd(&mut ctx.src, n);
    if ctx.src.chance(1, 20) {
        t.contents.clear();
    }
    ctx.nontrivial();
    ctx.label_if(t.contents.len() > 1, "several TMD contents");
    ctx.label_if(t.contents.is_empty(), "no TMD contents");
    ctx.describe(format!("TMD with {} contents", t.contents.len()));
    both(ctx, "TMD", &t, &t.encode(), lib_tmd(&t), TMD_RES, from_tmd)
}

fn cert(ctx: &mut Ctx) -> Result<(), String> {
    let c = gen_cert(&mut ctx.src);
    ctx.nontrivial();
    let b = c.encode();
    ctx.describe(format!("certificate signature type {:#x} key type {} ({:#x} bytes)", c.sig_type, c.key_type, b.len()));
    // reserved ranges depend on the signature length
    both(ctx, "certificate", &c, &b, lib_cert(&c), &[], from_cert)?;
    let s = 4 + c.sig.len();
    let mut j = b.clone();
    for x in &mut j[s..s + 60] {
        *x = ctx.src.int(8) as u8;
    }
    let n = j.len();
    for x in &mut j[n - 52..] {
        *x = ctx.src.int(8) as u8;
    }
    let mut cur = Cursor::new(j);
    let v = from_cert(&cur.read_be::<Certificate>().map_err(|e| format!("certificate with other reserved bytes refused: {e}"))?);
    if v != c || cur.position() != n as u64 {
        return Err(show("certificate with other reserved bytes", v, c));
    }
    Ok(())
}

fn certs(ctx: &mut Ctx) -> Result<(), String> {
    let cs: Vec<RCert> = (0..3).map(|_| gen_cert(&mut ctx.src)).collect();
    ctx.nontrivial();
    let b: Vec<u8> = cs.iter().flat_map(|c| c.encode()).collect();
    ctx.describe(format!("certificate chain of {:#x} bytes", b.len()));
    let v: [Certificate; 3] = [lib_cert(&cs[0]), lib_cert(&cs[1]), lib_cert(&cs[2])];
    generic(ctx, "certificate chain", &cs, &b, v, &[], |v| v.iter().map(from_cert).collect(), |c| c.read_be::<[Certificate; 3]>(), |c, v| c.write_be(v))
}

fn header(ctx: &mut Ctx) -> Result<(), String> {
    let h = gen_hdr(&mut ctx.src);
    ctx.nontrivial();
    let utf8 = std::str::from_utf8(&h.title).is_ok();
    ctx.label_if(!utf8, "title that is not UTF-8");
    ctx.label_if(h.title.len() >= 63, "title of 63 or 64 bytes");
    ctx.label_if(h.title.is_empty(), "empty title");
    ctx.describe(format!("disc header title {:?} dol {:#x} fst {:#x}+{:#x}", String::from_utf8_lossy(&h.title), h.dol_off, h.fst_off, h.fst_sz));
    let v = lib_hdr(&h);
    if utf8 && h.title.is_ascii() && v.game_title.as_bytes() != h.title {
        return Err("ASCII title is not kept as it is".into());
    }
    both(ctx, "disc header", &h, &h.encode(), v, HDR_RES, from_hdr)?;
    // bytes behind the terminator are not part of the title
    if h.title.len() < 63 {
        let mut b = h.encode();
        for x in &mut b[0x20 + h.title.len() + 1..0x60] {
            *x = ctx.src.int(8) as u8;
        }
        let g = from_hdr(&Cursor::new(b).read_be::<DiscHeader>().map_err(|e| format!("disc header refused: {e}"))?);
        if g != h {
            return Err(show("disc header with bytes behind the title", g, h));
        }
    }
    Ok(())
}

/// titles that do not fit the field are refused
fn long_title(ctx: &mut Ctx) -> Result<(), String> {
    let h = gen_hdr(&mut ctx.src);
    let n = ctx.src.usize(1, 90);
    let c = *ctx.src.pick(&['t', 'é', '日', '😀']);
    let s: String = std::iter::repeat(c).take(n).collect();
    ctx.describe(format!("title of {} bytes", s.len()));
    if s.len() > 60 {
        ctx.nontrivial();
    }
    let mut v = lib_hdr(&h);
    v.game_title = s.clone();
    let mut cur = Cursor::new(vec![]);
    match cur.write_be(&v) {
        Ok(()) => {
            let b = cur.into_inner();
            if b.len() != 0x440 {
                return Err(format!("header of {:#x} bytes for a title of {} bytes", b.len(), s.len()));
            }
            if s.len() > 64 {
                return Err(format!("a title of {} bytes is written without an error", s.len()));
            }
            let g = Cursor::new(b).read_be::<DiscHeader>().map_err(|e| format!("{e}"))?;
            if g != v {
                return Err(show("header", g, v));
            }
            Ok(())
        }
        Err(_) if s.len() > 64 => Ok(()),
        Err(e) => Err(format!("title of {} bytes refused: {e}", s.len())),
    }
}

fn part_header(ctx: &mut Ctx) -> Result<(), String> {
    let t = gen_ticket(&mut ctx.src);
    let s = &mut ctx.src;
    let f: [u64; 7] = [s.int(32), s.int(32) << 2, s.int(32), s.int(32) << 2, s.int(32) << 2, s.int(32) << 2, s.int(32) << 2];
    ctx.nontrivial();
    ctx.label_if(f.iter().any(|x| *x > u32::MAX as u64), "offset beyond 4 GiB");
    ctx.describe(format!("partition header {f:x?}"));
    let mut b = t.encode();
    for (i, x) in f.iter().enumerate() {
        let shifted = i != 0 && i != 2;
        b.extend((if shifted { (x >> 2) as u32 } else { *x as u32 }).to_be_bytes());
    }
    assert_eq!(b.len(), 0x2C0);
    let v = WiiPartitionHeader {
        ticket: lib_ticket(&t),
        tmd_size: f[0] as u32,
        tmd_off: f[1].into(),
        cert_chain_size: f[2] as u32,
        cert_chain_off: f[3].into(),
        global_hash_table_off: f[4].into(),
        data_off: f[5].into(),
        data_size: f[6].into(),
    };
    both(ctx, "partition header", &(t, f), &b, v, TICKET_RES, |v| {
        (from_ticket(&v.ticket), [v.tmd_size as u64, *v.tmd_off, v.cert_chain_size as u64, *v.cert_chain_off, *v.global_hash_table_off, *v.data_off, *v.data_size])
    })
}

fn table_entry(ctx: &mut Ctx) -> Result<(), String> {
    let off = ctx.src.int(32) << 2;
    let t = ctx.src.below(3) as u32;
    ctx.nontrivial();
    ctx.describe(format!("table entry {off:#x} type {t}"));
    let mut b = ((off >> 2) as u32).to_be_bytes().to_vec();
    b.extend(t.to_be_bytes());
    let mut c = Cursor::new(b.clone());
    let v = c.read_be::<WiiPartTableEntry>().map_err(|e| format!("table entry refused: {e}"))?;
    if c.position() != 8 || v.get_offset() != off || type_num(v.get_type()) != t {
        return Err(format!("table entry {b:02x?} parsed as {v:?}"));
    }
    let mut c = Cursor::new(vec![]);
    c.write_be(&v).map_err(|e| format!("{e}"))?;
    short_diff("table entry", &c.into_inner(), &b)?;
    let bad = 3 + ctx.src.int(31) as u32;
    put32(&mut b, 4, bad);
    if Cursor::new(b).read_be::<WiiPartTableEntry>().is_ok() {
        return Err(format!("partition type {bad:#x} is accepted"));
    }
    Ok(())
}

fn dol(ctx: &mut Ctx) -> Result<(), String> {
    let s = &mut ctx.src;
    let mut d = RDol::default();
    for x in d.text_off.iter_mut().chain(&mut d.data_off).chain(&mut d.text_start).chain(&mut d.data_start).chain(&mut d.text_size).chain(&mut d.data_size) {
        *x = s.int(32) as u32;
    }
    d.bss_start = s.int(32) as u32;
    d.bss_size = s.int(32) as u32;
    d.entry = s.int(32) as u32;
    ctx.nontrivial();
    ctx.describe(format!("DOL header {d:x?}"));
    let v = DOLHeader {
        text_off: d.text_off,
        data_off: d.data_off,
        text_starts: d.text_start,
        data_starts: d.data_start,
        text_sizes: d.text_size,
        data_sizes: d.data_size,
        bss_start: d.bss_start,
        bss_size: d.bss_size,
        entry_point: d.entry,
    };
    let b = d.encode_header();
    both(ctx, "DOL header", &d, &b, v, &[], |v| RDol {
        text_off: v.text_off,
        data_off: v.data_off,
        text_start: v.text_starts,
        data_start: v.data_starts,
        text_size: v.text_sizes,
        data_size: v.data_sizes,
        bss_start: v.bss_start,
        bss_size: v.bss_size,
        entry: v.entry_point,
    })
}

fn apploader(ctx: &mut Ctx) -> Result<(), String> {
    let (a, b) = (ctx.src.int(32) as u32, ctx.src.int(32) as u32);
    ctx.nontrivial();
    ctx.describe(format!("apploader header {a:#x} {b:#x}"));
    let mut x = vec![0u8; 0x1C];
    put32(&mut x, 0x14, a);
    put32(&mut x, 0x18, b);
    both(ctx, "apploader header", &(a, b), &x, ApploaderHeader { size1: a, size2: b }, APP_RES, |v| (v.size1, v.size2))
}

fn names(ctx: &mut Ctx) -> Result<(), String> {
    let base = *ctx.src.pick(&["DATA", "CHANNEL", "UPDATE", "", "DATA ", "D", "DATA\0", "ＤＡＴＡ", "BOOT", "DATAS", "1"]);
    let s: String = base.chars().map(|c| if ctx.src.bool() { c.to_ascii_lowercase() } else { c }).collect();
    ctx.describe(format!("section name {s:?}"));
    ctx.nontrivial();
    let want = match base {
        "DATA" => Some(0),
        "UPDATE" => Some(1),
        "CHANNEL" => Some(2),
        _ => None,
    };
    let got = WiiPartType::try_from_str(&s).map(type_num);
    if got != want {
        return Err(format!("section name {s:?} gives {got:?}"));
    }
    Ok(())
}

pub fn c14() -> Property {
    let mut p = Property::new(
        "C14",
        "one case = one generated value of one structure: the independent encoding is parsed at a random stream position and compared field by field, the value is written over junk and compared byte by byte (size, offsets, nothing outside), reserved bytes are varied, truncated or unrepresentable encodings must be refused; every case is non-trivial except titles of at most 60 bytes in the long-title suite",
        vec![
            Suite::new("ticket", 300000, 3000000, ticket),
            Suite::new("tmd", 200000, 1600000, tmd),
            Suite::new("certificate", 150000, 1600000, cert),
            Suite::new("certificate-chain", 50000, 600000, certs),
            Suite::new("disc-header", 300000, 3000000, header),
            Suite::new("long-title", 25000, 200000, long_title),
            Suite::new("partition-header", 200000, 2000000, part_header),
            Suite::new("table-entry", 100000, 800000, table_entry),
            Suite::new("dol-header", 100000, 800000, dol),
            Suite::new("apploader-header", 100000, 800000, apploader),
            Suite::new("section-name", 15000, 60000, names),
        ],
    );
    p.assumptions = &["reserved bytes are written as zero", "titles hold no NUL and, for bytes that are not UTF-8, only the byte round trip is specified, not the characters used in memory", "offsets are multiples of four below 16 GiB, as the format stores them shifted"];
    p
}
