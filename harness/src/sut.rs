//! Adaptors between the models and the library under test.
use crate::blob::Blob;
use crate::model::*;
use crate::wiiref::*;
use disc_riider::builder::{PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::structs::*;
use disc_riider::{Fst, FstNode, WiiIsoReader, WiiPartitionReadInfo};
use std::borrow::Cow;
use std::io::{Read, Seek, Write};

pub fn lib_sig(t: u32) -> SigType {
    match t {
        0x10000 => SigType::Rsa4096,
        0x10001 => SigType::Rsa2048,
        _ => SigType::EllipticalCurve,
    }
}
pub fn lib_key(t: u32) -> KeyType {
    match t {
        0 => KeyType::Rsa4096,
        _ => KeyType::Rsa2048,
    }
}
pub fn lib_type(t: u32) -> WiiPartType {
    match t {
        0 => WiiPartType::Data,
        1 => WiiPartType::Update,
        _ => WiiPartType::Channel,
    }
}
pub fn type_num(t: WiiPartType) -> u32 {
    match t {
        WiiPartType::Data => 0,
        WiiPartType::Update => 1,
        WiiPartType::Channel => 2,
    }
}
fn sig_num(t: SigType) -> u32 {
    match t {
        SigType::Rsa4096 => 0x10000,
        SigType::Rsa2048 => 0x10001,
        SigType::EllipticalCurve => 0x10002,
    }
}
fn key_num(t: KeyType) -> u32 {
    match t {
        KeyType::Rsa4096 => 0,
        KeyType::Rsa2048 => 1,
    }
}

pub fn lib_ticket(t: &RTicket) -> Ticket {
    Ticket {
        sig_type: lib_sig(t.sig_type),
        sig: t.sig,
        sig_issuer: t.issuer,
        ecdh: t.ecdh,
        ticket_id: t.ticket_id,
        console_id: t.console_id,
        title_id: t.title_id,
        unk: t.unk,
        ticket_version: t.version,
        permitted_titles_mask: t.permitted_mask,
        permit_mask: t.permit_mask,
        title_export_allowed: t.export_allowed,
        common_key_idx: t.key_idx,
        content_access_permissions: t.access,
        unk2: t.unk2,
        time_limits: t.limits.map(|(a, b)| TicketTimeLimit { enable_time_limit: a, time_limit: b }),
        title_key: t.title_key,
    }
}

pub fn from_ticket(t: &Ticket) -> RTicket {
    let mut limits = [(0, 0); 8];
    for (i, l) in t.time_limits.iter().enumerate() {
        limits[i] = (l.enable_time_limit, l.time_limit);
    }
    RTicket {
        sig_type: sig_num(t.sig_type),
        sig: t.sig,
        issuer: t.sig_issuer,
        ecdh: t.ecdh,
        title_key: t.title_key,
        ticket_id: t.ticket_id,
        console_id: t.console_id,
        title_id: t.title_id,
        unk: t.unk,
        version: t.ticket_version,
        permitted_mask: t.permitted_titles_mask,
        permit_mask: t.permit_mask,
        export_allowed: t.title_export_allowed,
        key_idx: t.common_key_idx,
        access: t.content_access_permissions,
        unk2: t.unk2,
        limits,
    }
}

pub fn lib_tmd(t: &RTmd) -> TMD {
    TMD {
        sig_type: lib_sig(t.sig_type),
        sig: t.sig,
        sig_issuer: t.issuer,
        version: t.version,
        ca_crl_version: t.ca_crl,
        signer_crl_version: t.signer_crl,
        ios_id_major: t.ios_major,
        ios_id_minor: t.ios_minor,
        title_id_major: t.title_major,
        title_id_minor: t.title_minor,
        title_type: t.title_type,
        group_id: t.group_id,
        fakesign_padding: t.filler,
        access_flags: t.access_flags,
        title_version: t.title_version,
        boot_idx: t.boot_idx,
        contents: t.contents.iter().map(|c| TMDContent { id: c.id, index: c.index, content_type: c.ctype, size: c.size, hash: c.hash }).collect(),
    }
}

pub fn from_tmd(t: &TMD) -> RTmd {
    RTmd {
        sig_type: sig_num(t.sig_type),
        sig: t.sig,
        issuer: t.sig_issuer,
        version: t.version,
        ca_crl: t.ca_crl_version,
        signer_crl: t.signer_crl_version,
        ios_major: t.ios_id_major,
        ios_minor: t.ios_id_minor,
        title_major: t.title_id_major,
        title_minor: t.title_id_minor,
        title_type: t.title_type,
        group_id: t.group_id,
        filler: t.fakesign_padding,
        access_flags: t.access_flags,
        title_version: t.title_version,
        boot_idx: t.boot_idx,
        contents: t.contents.iter().map(|c| RContent { id: c.id, index: c.index, ctype: c.content_type, size: c.size, hash: c.hash }).collect(),
    }
}

pub fn lib_cert(c: &RCert) -> Certificate {
    Certificate {
        sig_type: lib_sig(c.sig_type),
        sig: c.sig.clone(),
        issuer: c.issuer,
        key_type: lib_key(c.key_type),
        subject: c.subject,
        key: c.key.clone(),
        modulus: c.modulus,
        pub_exp: c.exp,
    }
}

pub fn from_cert(c: &Certificate) -> RCert {
    RCert {
        sig_type: sig_num(c.sig_type),
        sig: c.sig.clone(),
        issuer: c.issuer,
        key_type: key_num(c.key_type),
        subject: c.subject,
        key: c.key.clone(),
        modulus: c.modulus,
        exp: c.pub_exp,
    }
}

/// Titles are stored as bytes but held as a string. For bytes that are not UTF-8 the library's own representation is
/// used (only its round trip is specified).
fn ordinary(c: char) -> bool {
    !(0xE000..=0xF8FF).contains(&(c as u32))
}

fn lib_title(b: &[u8]) -> String {
    if let Ok(s) = String::from_utf8(b.to_vec()) {
        if s.chars().all(ordinary) {
            return s;
        }
    }
    let mut raw = vec![0u8; 0x440];
    raw[0x20..0x20 + b.len()].copy_from_slice(b);
    std::io::Cursor::new(raw).read_be::<DiscHeader>().expect("a disc header").game_title
}

fn title_bytes(h: &DiscHeader) -> Vec<u8> {
    if h.game_title.chars().all(ordinary) {
        return h.game_title.as_bytes().to_vec();
    }
    let mut raw = std::io::Cursor::new(vec![]);
    match raw.write_be(h) {
        Ok(()) => {
            let f = &raw.into_inner()[0x20..0x60];
            f[..f.iter().position(|b| *b == 0).unwrap_or(64)].to_vec()
        }
        Err(_) => h.game_title.as_bytes().to_vec(),
    }
}

pub fn lib_hdr(h: &RHdr) -> DiscHeader {
    DiscHeader {
        game_id: h.game_id,
        disc_num: h.disc_num,
        disc_version: h.disc_version,
        audio_streaming: h.audio,
        audio_stream_buf_size: h.audio_buf,
        wii_magic: h.wii_magic,
        gcn_magic: h.gcn_magic,
        game_title: lib_title(&h.title),
        disable_hash_verification: h.no_hash,
        disable_disc_enc: h.no_enc,
        debug_mon_off: h.mon_off,
        debug_load_addr: h.load_addr,
        dol_off: h.dol_off.into(),
        fst_off: h.fst_off.into(),
        fst_sz: h.fst_sz.into(),
        fst_max_sz: h.fst_max.into(),
        fst_memory_address: h.fst_addr,
        user_position: h.user_pos,
        user_sz: h.user_sz,
    }
}

pub fn from_hdr(h: &DiscHeader) -> RHdr {
    RHdr {
        game_id: h.game_id,
        disc_num: h.disc_num,
        disc_version: h.disc_version,
        audio: h.audio_streaming,
        audio_buf: h.audio_stream_buf_size,
        wii_magic: h.wii_magic,
        gcn_magic: h.gcn_magic,
        title: title_bytes(h),
        no_hash: h.disable_hash_verification,
        no_enc: h.disable_disc_enc,
        mon_off: h.debug_mon_off,
        load_addr: h.debug_load_addr,
        dol_off: *h.dol_off,
        fst_off: *h.fst_off,
        fst_sz: *h.fst_sz,
        fst_max: *h.fst_max_sz,
        fst_addr: h.fst_memory_address,
        user_pos: h.user_position,
        user_sz: h.user_sz,
    }
}

/// how the placeholder lengths of the file table handed to the builder are filled
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lens {
    Real,
    Zero,
    /// offsets and lengths of some other image
    Junk,
}

pub fn lib_nodes(t: &[Node], lens: Lens) -> Vec<FstNode> {
    t.iter()
        .map(|n| match n {
            Node::File { name, data, .. } => {
                let r = name.bytes().fold(crate::engine::mix(data.len), |a, b| crate::engine::mix(a ^ b as u64));
                let (offset, length) = match lens {
                    Lens::Real => (0, data.len as u32),
                    Lens::Zero => (0, 0),
                    Lens::Junk => (r & 0x3_FFFF_FFFC, (r >> 34) as u32),
                };
                FstNode::File { name: name.clone(), offset, length }
            }
            Node::Dir { name, kids } => FstNode::Directory { name: name.clone(), files: lib_nodes(kids, lens) },
        })
        .collect()
}

pub fn lib_fst(nodes: Vec<FstNode>) -> Fst {
    let mut f = Fst::new();
    *f.get_entries_mut() = nodes;
    f
}

#[derive(Debug, PartialEq, Clone)]
pub struct SupErr(pub u32);
impl std::fmt::Display for SupErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "supplier error {}", self.0)
    }
}
impl std::error::Error for SupErr {}

/// stage of the definition at which a failure is injected
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stage {
    Header,
    Bi2,
    App,
    Fst,
    Dol,
    File(usize),
}

/// A partition definition over a model, with optional injected failure; records the calls made for files.
pub struct Def<'a> {
    pub d: &'a PartDef,
    pub lens: Lens,
    pub fail: Option<(Stage, u32)>,
    pub io_fail: bool,
    pub map: std::collections::HashMap<Vec<String>, (Blob, u32)>,
    pub calls: Vec<Vec<String>>,
    pub zeros: Option<&'static [u8]>,
    pub fired: bool,
}

impl<'a> Def<'a> {
    pub fn new(d: &'a PartDef) -> Self {
        let mut map = std::collections::HashMap::new();
        fn rec(t: &[Node], p: &mut Vec<String>, m: &mut std::collections::HashMap<Vec<String>, (Blob, u32)>) {
            for n in t {
                p.push(n.name().to_string());
                match n {
                    Node::File { data, pad, .. } => {
                        m.insert(p.clone(), (data.clone(), *pad));
                    }
                    Node::Dir { kids, .. } => rec(kids, p, m),
                }
                p.pop();
            }
        }
        rec(&d.tree, &mut vec![], &mut map);
        Def { d, lens: Lens::Real, fail: None, io_fail: false, map, calls: vec![], zeros: None, fired: false }
    }
    fn trip(&mut self, s: Stage) -> Result<(), PartitionAddError<SupErr>> {
        match self.fail {
            Some((st, code)) if st == s => {
                self.fired = true;
                if self.io_fail {
                    Err(PartitionAddError::IO(std::io::Error::new(std::io::ErrorKind::Other, SupErr(code))))
                } else {
                    Err(PartitionAddError::Custom(SupErr(code)))
                }
            }
            _ => Ok(()),
        }
    }
}

impl<'x> WiiPartitionDefinition<SupErr> for Def<'x> {
    fn get_disc_header(&mut self) -> Result<DiscHeader, PartitionAddError<SupErr>> {
        self.trip(Stage::Header)?;
        Ok(lib_hdr(&self.d.hdr))
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<SupErr>> {
        self.trip(Stage::Bi2)?;
        Ok(Cow::Borrowed(&self.d.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<SupErr>> {
        self.trip(Stage::App)?;
        Ok(Cow::Borrowed(&self.d.app))
    }
    fn get_fst(&mut self) -> Result<Fst, PartitionAddError<SupErr>> {
        self.trip(Stage::Fst)?;
        Ok(lib_fst(lib_nodes(&self.d.tree, self.lens)))
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<SupErr>> {
        self.trip(Stage::Dol)?;
        Ok(Cow::Borrowed(&self.d.dol))
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), PartitionAddError<SupErr>> {
        let k = self.calls.len();
        self.calls.push(path.clone());
        self.trip(Stage::File(k))?;
        let (b, pad) = match self.map.get(path) {
            Some(x) => x.clone(),
            None => panic!("builder asked for a file that does not exist: {path:?}"),
        };
        if let Some(z) = self.zeros {
            if b.kind == 1 && b.len as usize <= z.len() {
                return Ok((Cow::Borrowed(&z[..b.len as usize]), pad));
            }
        }
        Ok((Cow::Owned(b.to_vec()), pad))
    }
}

pub fn certs3(d: &PartDef) -> [Certificate; 3] {
    [lib_cert(&d.certs[0]), lib_cert(&d.certs[1]), lib_cert(&d.certs[2])]
}

pub fn add<WS: Read + Write + Seek>(b: &mut WiiDiscBuilder<WS>, def: &mut Def, prog: &mut impl FnMut(u8)) -> Result<(), PartitionAddError<SupErr>> {
    let d = def.d;
    b.add_partition(lib_type(d.ptype), lib_ticket(&d.ticket), lib_tmd(&d.tmd), certs3(d), def, prog)
}

/// Build a whole disc on a stream.
pub fn build_on<WS: Read + Write + Seek>(ws: WS, hdr: &RHdr, region: [u8; 32], parts: &[PartDef], lens: Lens) -> Result<(), String> {
    let mut b = WiiDiscBuilder::create(ws, lib_hdr(hdr), region);
    for d in parts {
        let mut def = Def::new(d);
        def.lens = lens;
        add(&mut b, &mut def, &mut |_| {}).map_err(|e| format!("add_partition failed: {e}"))?;
    }
    b.finish().map_err(|e| format!("finish failed: {e}"))
}

pub fn build_vec(hdr: &RHdr, region: [u8; 32], parts: &[PartDef], lens: Lens) -> Result<Vec<u8>, String> {
    let mut cur = std::io::Cursor::new(Vec::new());
    build_on(&mut cur, hdr, region, parts, lens)?;
    Ok(cur.into_inner())
}

/// library nodes compared with a model tree: names, nesting, order, lengths
pub fn same_tree(got: &[FstNode], want: &[Node]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("directory has {} entries {:?} instead of {} {:?}", got.len(), got.iter().map(|n| n.get_name()).collect::<Vec<_>>(), want.len(), want.iter().map(|n| n.name()).collect::<Vec<_>>()));
    }
    for (g, w) in got.iter().zip(want) {
        if g.get_name() != w.name() {
            return Err(format!("name {:?} instead of {:?}", g.get_name(), w.name()));
        }
        match (g, w) {
            (FstNode::File { length, .. }, Node::File { data, .. }) => {
                if *length as u64 != data.len {
                    return Err(format!("length of {:?} is {length:#x} instead of {:#x}", w.name(), data.len));
                }
            }
            (FstNode::Directory { files, .. }, Node::Dir { kids, .. }) => same_tree(files, kids).map_err(|e| format!("{}/: {e}", w.name()))?,
            _ => return Err(format!("{:?} has the wrong node type", w.name())),
        }
    }
    Ok(())
}

pub fn show<T: std::fmt::Debug>(what: &str, got: T, want: T) -> String {
    let s = |x: String| x.chars().take(700).collect::<String>();
    format!("{what}: got {} instead of {}", s(format!("{got:?}")), s(format!("{want:?}")))
}

pub fn short_diff(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{what}: {} bytes instead of {}, first difference at {i:#x}: {:02x?} instead of {:02x?}", got.len(), want.len(), &got[i..got.len().min(i + 8)], &want[i..want.len().min(i + 8)]))
}

/// Everything the reader reports about a partition equals the definition.
pub fn check_read_part<RS: Read + Seek>(r: &mut WiiIsoReader<RS>, p: &mut WiiPartitionReadInfo, d: &PartDef) -> Result<(), String> {
    if type_num(p.get_partition_type()) != d.ptype {
        return Err(show("partition type", type_num(p.get_partition_type()), d.ptype));
    }
    let t = from_ticket(&p.get_partition_header().ticket);
    if t != d.ticket {
        return Err(show("ticket", t, d.ticket.clone()));
    }
    let h = from_hdr(p.get_encrypted_header()).normalised();
    if h != d.hdr.normalised() {
        return Err(show("partition disc header", h, d.hdr.normalised()));
    }
    let tmd = from_tmd(&p.read_tmd(r).map_err(|e| format!("read_tmd: {e}"))?).normalised();
    if tmd != d.tmd.normalised() {
        return Err(show("TMD", tmd, d.tmd.normalised()));
    }
    let certs: Vec<RCert> = p.read_certificates(r).map_err(|e| format!("read_certificates: {e}"))?.iter().map(from_cert).collect();
    if certs != d.certs {
        return Err("certificates differ".into());
    }
    let mut bi2 = d.bi2.clone();
    bi2.resize(0x2000, 0);
    short_diff("bi2", &p.read_bi2(r).map_err(|e| format!("read_bi2: {e}"))?, &bi2)?;
    short_diff("apploader", &p.read_apploader(r).map_err(|e| format!("read_apploader: {e}"))?, &d.app)?;
    short_diff("DOL", &p.read_dol(r).map_err(|e| format!("read_dol: {e}"))?, &d.dol)?;
    same_tree(p.get_fst().get_entries(), &d.tree)?;
    for (path, blob) in files(&d.tree) {
        read_file(r, p, &path, &blob)?;
    }
    Ok(())
}

pub fn read_file<RS: Read + Seek>(r: &mut WiiIsoReader<RS>, p: &mut WiiPartitionReadInfo, path: &[String], blob: &Blob) -> Result<(), String> {
    let joined = path.join("/");
    let mut f = p.open_file(r, &joined).ok_or_else(|| format!("{joined:?} cannot be opened"))?;
    if blob.kind == 1 && blob.len > (64 << 20) {
        // large all-zero file: compare in pieces
        let mut buf = vec![0u8; 1 << 20];
        let mut n = 0u64;
        loop {
            let k = f.read(&mut buf).map_err(|e| format!("{joined:?}: {e}"))?;
            if k == 0 {
                break;
            }
            if buf[..k].iter().any(|b| *b != 0) {
                return Err(format!("{joined:?}: content differs near {n:#x}"));
            }
            n += k as u64;
        }
        if n != blob.len {
            return Err(format!("{joined:?}: {n:#x} bytes instead of {:#x}", blob.len));
        }
        return Ok(());
    }
    let mut v = Vec::with_capacity(blob.len as usize);
    f.read_to_end(&mut v).map_err(|e| format!("{joined:?}: {e}"))?;
    blob.matches(&v).map_err(|e| format!("{joined:?}: {e}"))
}

/// the plaintext of a decoded partition holds the definition
pub fn check_decoded_part(p: &DPart, d: &PartDef) -> Result<(), String> {
    if p.ptype != d.ptype {
        return Err(show("partition type", p.ptype, d.ptype));
    }
    if p.ticket != d.ticket {
        return Err(show("ticket", p.ticket.clone(), d.ticket.clone()));
    }
    if p.hdr.normalised() != d.hdr.normalised() {
        return Err(show("partition disc header", p.hdr.normalised(), d.hdr.normalised()));
    }
    if p.tmd.normalised() != d.tmd.normalised() {
        return Err(show("TMD", p.tmd.normalised(), d.tmd.normalised()));
    }
    let certs: Vec<u8> = d.certs.iter().flat_map(|c| c.encode()).collect();
    short_diff("certificates", &p.certs, &certs)?;
    let mut used: Vec<(u64, u64, String)> = vec![(0, 0x440, "header".into())];
    let mut bi2 = d.bi2.clone();
    bi2.resize(0x2000, 0);
    let at = |off: u64, len: u64, what: &str| -> Result<&[u8], String> {
        if off + len > p.plain.len() as u64 {
            return Err(format!("{what} at {off:#x}+{len:#x} lies outside the partition data"));
        }
        Ok(&p.plain[off as usize..(off + len) as usize])
    };
    short_diff("bi2", at(0x440, 0x2000, "bi2")?, &bi2)?;
    used.push((0x440, 0x2440, "bi2".into()));
    short_diff("apploader", at(0x2440, d.app.len() as u64, "apploader")?, &d.app)?;
    used.push((0x2440, 0x2440 + d.app.len() as u64, "apploader".into()));
    short_diff("DOL", at(p.hdr.dol_off, d.dol.len() as u64, "DOL")?, &d.dol)?;
    used.push((p.hdr.dol_off, p.hdr.dol_off + d.dol.len() as u64, "DOL".into()));
    used.push((p.hdr.fst_off, p.hdr.fst_off + p.fst_len, "file table".into()));
    if p.fst_len > p.hdr.fst_sz {
        return Err(format!("file table of {:#x} bytes does not fit the size {:#x} in the header", p.fst_len, p.hdr.fst_sz));
    }
    same_ftree(&p.fst, &d.tree)?;
    for ((path, off, len), (_, blob)) in flat(&p.fst).into_iter().zip(files(&d.tree)) {
        let name = path.join("/");
        blob.matches(at(off, len as u64, &name)?).map_err(|e| format!("{name:?}: {e}"))?;
        if len > 0 {
            used.push((off, off + len as u64, name));
        }
    }
    used.sort();
    for w in used.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("{:?} ({:#x}..{:#x}) and {:?} ({:#x}..) overlap", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0));
        }
    }
    Ok(())
}

pub fn same_ftree(got: &[FNode], want: &[Node]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("directory has {} entries {:?} instead of {} {:?}", got.len(), got.iter().map(|n| n.name()).take(20).collect::<Vec<_>>(), want.len(), want.iter().map(|n| n.name()).take(20).collect::<Vec<_>>()));
    }
    for (g, w) in got.iter().zip(want) {
        if g.name() != w.name() {
            return Err(format!("name {:?} instead of {:?}", g.name(), w.name()));
        }
        match (g, w) {
            (FNode::File { len, .. }, Node::File { data, .. }) => {
                if *len as u64 != data.len {
                    return Err(format!("length of {:?} is {len:#x} instead of {:#x}", w.name(), data.len));
                }
            }
            (FNode::Dir { kids: a, .. }, Node::Dir { kids, .. }) => same_ftree(a, kids)?,
            _ => return Err(format!("{:?} has the wrong node type", w.name())),
        }
    }
    Ok(())
}
