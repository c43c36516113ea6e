//! Independent reference implementation of the Wii disc format: explicit byte offsets, hash tree, encryption.
use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, BlockEncryptMut, KeyIvInit};
use sha1::{Digest, Sha1};

pub const BLOCK: usize = 0x8000;
pub const BHDR: usize = 0x400;
pub const BDATA: usize = 0x7C00;
pub const GROUP: usize = 0x200000;
pub const GDATA: usize = 0x1F0000;

pub const KEYS: [[u8; 16]; 2] = [
    [0xeb, 0xe4, 0x2a, 0x22, 0x5e, 0x85, 0x93, 0xe4, 0x48, 0xd9, 0xc5, 0x45, 0x73, 0x81, 0xaa, 0xf7],
    [0x63, 0xb8, 0x2b, 0xb4, 0xf4, 0x61, 0x4e, 0x2e, 0x13, 0xf2, 0xfe, 0xfb, 0xba, 0x4c, 0x9b, 0x7e],
];

pub fn sha(d: &[u8]) -> [u8; 20] {
    let mut h = Sha1::new();
    h.update(d);
    let r = h.finalize();
    let mut o = [0u8; 20];
    o.copy_from_slice(&r);
    o
}

pub fn cbc_enc(key: &[u8; 16], iv: &[u8; 16], data: &mut [u8]) {
    let n = data.len();
    cbc::Encryptor::<aes::Aes128>::new(key.into(), iv.into()).encrypt_padded_mut::<NoPadding>(data, n).unwrap();
}

pub fn cbc_dec(key: &[u8; 16], iv: &[u8; 16], data: &mut [u8]) {
    cbc::Decryptor::<aes::Aes128>::new(key.into(), iv.into()).decrypt_padded_mut::<NoPadding>(data).unwrap();
}

fn iv16(b: &[u8]) -> [u8; 16] {
    b.try_into().unwrap()
}

struct Tree {
    h0: Vec<[u8; 620]>,
    h1: Vec<[u8; 160]>,
    h2: [u8; 160],
    h3: [u8; 20],
}

/// hash tree of one group of plaintext (64 x 0x7C00 bytes)
fn tree(plain: &[u8]) -> Tree {
    assert_eq!(plain.len(), GDATA);
    let mut h0 = vec![[0u8; 620]; 64];
    for b in 0..64 {
        for c in 0..31 {
            let at = b * BDATA + c * 0x400;
            h0[b][c * 20..c * 20 + 20].copy_from_slice(&sha(&plain[at..at + 0x400]));
        }
    }
    let mut h1 = vec![[0u8; 160]; 8];
    for b in 0..64 {
        h1[b / 8][(b % 8) * 20..(b % 8) * 20 + 20].copy_from_slice(&sha(&h0[b]));
    }
    let mut h2 = [0u8; 160];
    for s in 0..8 {
        h2[s * 20..s * 20 + 20].copy_from_slice(&sha(&h1[s]));
    }
    let h3 = sha(&h2);
    Tree { h0, h1, h2, h3 }
}

pub fn group_h3(plain: &[u8]) -> [u8; 20] {
    tree(plain).h3
}

pub fn encrypt_group(plain: &[u8], key: &[u8; 16]) -> (Vec<u8>, [u8; 20]) {
    let t = tree(plain);
    let mut out = vec![0u8; GROUP];
    for b in 0..64 {
        let blk = &mut out[b * BLOCK..(b + 1) * BLOCK];
        blk[0..620].copy_from_slice(&t.h0[b]);
        blk[0x280..0x320].copy_from_slice(&t.h1[b / 8]);
        blk[0x340..0x3E0].copy_from_slice(&t.h2);
        blk[0x400..].copy_from_slice(&plain[b * BDATA..(b + 1) * BDATA]);
        cbc_enc(key, &[0; 16], &mut blk[..0x400]);
        let iv = iv16(&blk[0x3D0..0x3E0]);
        cbc_enc(key, &iv, &mut blk[0x400..]);
    }
    (out, t.h3)
}

/// decrypts one group and verifies every hash in it; returns plaintext and the group's H3 entry
pub fn decrypt_group(enc: &[u8], key: &[u8; 16]) -> Result<(Vec<u8>, [u8; 20]), String> {
    assert_eq!(enc.len(), GROUP);
    let mut plain = vec![0u8; GDATA];
    let mut hdrs = vec![[0u8; 0x400]; 64];
    for b in 0..64 {
        let blk = &enc[b * BLOCK..(b + 1) * BLOCK];
        hdrs[b].copy_from_slice(&blk[..0x400]);
        cbc_dec(key, &[0; 16], &mut hdrs[b]);
        let p = &mut plain[b * BDATA..(b + 1) * BDATA];
        p.copy_from_slice(&blk[0x400..]);
        cbc_dec(key, &iv16(&blk[0x3D0..0x3E0]), p);
    }
    let t = tree(&plain);
    for b in 0..64 {
        let h = &hdrs[b];
        if h[..620] != t.h0[b] {
            return Err(format!("H0 table of block {b} does not match the data"));
        }
        if h[0x280..0x320] != t.h1[b / 8] {
            return Err(format!("H1 table of block {b} does not match"));
        }
        if h[0x340..0x3E0] != t.h2 {
            return Err(format!("H2 table of block {b} does not match"));
        }
        if h[620..0x280].iter().chain(&h[0x320..0x340]).chain(&h[0x3E0..0x400]).any(|x| *x != 0) {
            return Err(format!("hash header padding of block {b} is not zero"));
        }
    }
    Ok((plain, t.h3))
}

pub fn put(b: &mut [u8], at: usize, d: &[u8]) {
    b[at..at + d.len()].copy_from_slice(d);
}
pub fn put16(b: &mut [u8], at: usize, v: u16) {
    put(b, at, &v.to_be_bytes());
}
pub fn put32(b: &mut [u8], at: usize, v: u32) {
    put(b, at, &v.to_be_bytes());
}
pub fn put64(b: &mut [u8], at: usize, v: u64) {
    put(b, at, &v.to_be_bytes());
}
pub fn get16(b: &[u8], at: usize) -> u16 {
    u16::from_be_bytes(b[at..at + 2].try_into().unwrap())
}
pub fn get32(b: &[u8], at: usize) -> u32 {
    u32::from_be_bytes(b[at..at + 4].try_into().unwrap())
}
pub fn get64(b: &[u8], at: usize) -> u64 {
    u64::from_be_bytes(b[at..at + 8].try_into().unwrap())
}
pub fn arr<const N: usize>(b: &[u8], at: usize) -> [u8; N] {
    b[at..at + N].try_into().unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct RTicket {
    pub sig_type: u32,
    pub sig: [u8; 0x100],
    pub issuer: [u8; 0x40],
    pub ecdh: [u8; 0x3C],
    pub title_key: [u8; 16],
    pub ticket_id: [u8; 8],
    pub console_id: [u8; 4],
    pub title_id: [u8; 8],
    pub unk: u16,
    pub version: u16,
    pub permitted_mask: u32,
    pub permit_mask: u32,
    pub export_allowed: u8,
    pub key_idx: u8,
    pub access: [u8; 0x40],
    pub unk2: u16,
    pub limits: [(u32, u32); 8],
}

pub const TICKET_LEN: usize = 0x2A4;

fn key_iv(title_id: &[u8; 8]) -> [u8; 16] {
    let mut iv = [0; 16];
    iv[..8].copy_from_slice(title_id);
    iv
}

impl RTicket {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![0u8; TICKET_LEN];
        put32(&mut b, 0, self.sig_type);
        put(&mut b, 4, &self.sig);
        put(&mut b, 0x140, &self.issuer);
        put(&mut b, 0x180, &self.ecdh);
        let mut k = self.title_key;
        cbc_enc(&KEYS[self.key_idx as usize], &key_iv(&self.title_id), &mut k);
        put(&mut b, 0x1BF, &k);
        put(&mut b, 0x1D0, &self.ticket_id);
        put(&mut b, 0x1D8, &self.console_id);
        put(&mut b, 0x1DC, &self.title_id);
        put16(&mut b, 0x1E4, self.unk);
        put16(&mut b, 0x1E6, self.version);
        put32(&mut b, 0x1E8, self.permitted_mask);
        put32(&mut b, 0x1EC, self.permit_mask);
        b[0x1F0] = self.export_allowed;
        b[0x1F1] = self.key_idx;
        put(&mut b, 0x222, &self.access);
        put16(&mut b, 0x262, self.unk2);
        for (i, (e, l)) in self.limits.iter().enumerate() {
            put32(&mut b, 0x264 + i * 8, *e);
            put32(&mut b, 0x268 + i * 8, *l);
        }
        b
    }
    pub fn decode(b: &[u8]) -> Result<Self, String> {
        if b.len() < TICKET_LEN {
            return Err("ticket too short".into());
        }
        let key_idx = b[0x1F1];
        if key_idx > 1 {
            return Err(format!("common key index {key_idx}"));
        }
        let title_id: [u8; 8] = arr(b, 0x1DC);
        let mut k: [u8; 16] = arr(b, 0x1BF);
        cbc_dec(&KEYS[key_idx as usize], &key_iv(&title_id), &mut k);
        let mut limits = [(0, 0); 8];
        for (i, l) in limits.iter_mut().enumerate() {
            *l = (get32(b, 0x264 + i * 8), get32(b, 0x268 + i * 8));
        }
        Ok(RTicket {
            sig_type: get32(b, 0),
            sig: arr(b, 4),
            issuer: arr(b, 0x140),
            ecdh: arr(b, 0x180),
            title_key: k,
            ticket_id: arr(b, 0x1D0),
            console_id: arr(b, 0x1D8),
            title_id,
            unk: get16(b, 0x1E4),
            version: get16(b, 0x1E6),
            permitted_mask: get32(b, 0x1E8),
            permit_mask: get32(b, 0x1EC),
            export_allowed: b[0x1F0],
            key_idx,
            access: arr(b, 0x222),
            unk2: get16(b, 0x262),
            limits,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RContent {
    pub id: u32,
    pub index: u16,
    pub ctype: u16,
    pub size: u64,
    pub hash: [u8; 20],
}

#[derive(Clone, Debug, PartialEq)]
pub struct RTmd {
    pub sig_type: u32,
    pub sig: [u8; 0x100],
    pub issuer: [u8; 0x40],
    pub version: u8,
    pub ca_crl: u8,
    pub signer_crl: u8,
    pub ios_major: u32,
    pub ios_minor: u32,
    pub title_major: u32,
    pub title_minor: [u8; 4],
    pub title_type: u32,
    pub group_id: u16,
    pub filler: [u64; 7],
    pub access_flags: u32,
    pub title_version: u16,
    pub boot_idx: u16,
    pub contents: Vec<RContent>,
}

impl RTmd {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![0u8; 0x1E4 + 36 * self.contents.len()];
        put32(&mut b, 0, self.sig_type);
        put(&mut b, 4, &self.sig);
        put(&mut b, 0x140, &self.issuer);
        b[0x180] = self.version;
        b[0x181] = self.ca_crl;
        b[0x182] = self.signer_crl;
        put32(&mut b, 0x184, self.ios_major);
        put32(&mut b, 0x188, self.ios_minor);
        put32(&mut b, 0x18C, self.title_major);
        put(&mut b, 0x190, &self.title_minor);
        put32(&mut b, 0x194, self.title_type);
        put16(&mut b, 0x198, self.group_id);
        for (i, f) in self.filler.iter().enumerate() {
            put64(&mut b, 0x19A + i * 8, *f);
        }
        put32(&mut b, 0x1D8, self.access_flags);
        put16(&mut b, 0x1DC, self.title_version);
        put16(&mut b, 0x1DE, self.contents.len() as u16);
        put16(&mut b, 0x1E0, self.boot_idx);
        for (i, c) in self.contents.iter().enumerate() {
            let at = 0x1E4 + i * 36;
            put32(&mut b, at, c.id);
            put16(&mut b, at + 4, c.index);
            put16(&mut b, at + 6, c.ctype);
            put64(&mut b, at + 8, c.size);
            put(&mut b, at + 16, &c.hash);
        }
        b
    }
    pub fn decode(b: &[u8]) -> Result<Self, String> {
        if b.len() < 0x1E4 {
            return Err("TMD too short".into());
        }
        let n = get16(b, 0x1DE) as usize;
        if b.len() < 0x1E4 + n * 36 {
            return Err(format!("TMD of {} bytes too short for {} contents", b.len(), n));
        }
        let mut filler = [0u64; 7];
        for (i, f) in filler.iter_mut().enumerate() {
            *f = get64(b, 0x19A + i * 8);
        }
        Ok(RTmd {
            sig_type: get32(b, 0),
            sig: arr(b, 4),
            issuer: arr(b, 0x140),
            version: b[0x180],
            ca_crl: b[0x181],
            signer_crl: b[0x182],
            ios_major: get32(b, 0x184),
            ios_minor: get32(b, 0x188),
            title_major: get32(b, 0x18C),
            title_minor: arr(b, 0x190),
            title_type: get32(b, 0x194),
            group_id: get16(b, 0x198),
            filler,
            access_flags: get32(b, 0x1D8),
            title_version: get16(b, 0x1DC),
            boot_idx: get16(b, 0x1E0),
            contents: (0..n)
                .map(|i| {
                    let at = 0x1E4 + i * 36;
                    RContent { id: get32(b, at), index: get16(b, at + 4), ctype: get16(b, at + 6), size: get64(b, at + 8), hash: arr(b, at + 16) }
                })
                .collect(),
        })
    }
    /// the TMD with the fields a builder recomputes blanked out
    pub fn normalised(&self) -> RTmd {
        let mut t = self.clone();
        t.sig = [0; 0x100];
        t.filler = [0; 7];
        if let Some(c) = t.contents.first_mut() {
            c.size = 0;
            c.hash = [0; 20];
        }
        t
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RCert {
    pub sig_type: u32,
    pub sig: Vec<u8>,
    pub issuer: [u8; 0x40],
    pub key_type: u32,
    pub subject: [u8; 0x40],
    pub key: Vec<u8>,
    pub modulus: u32,
    pub exp: u32,
}

pub fn cert_sig_len(t: u32) -> usize {
    match t {
        0x10000 => 512,
        0x10001 => 256,
        0x10002 => 64,
        _ => 0,
    }
}
pub fn cert_key_len(t: u32) -> usize {
    match t {
        0 => 512,
        1 => 256,
        _ => 0,
    }
}

impl RCert {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![];
        b.extend(self.sig_type.to_be_bytes());
        b.extend(&self.sig);
        b.extend([0; 60]);
        b.extend(self.issuer);
        b.extend(self.key_type.to_be_bytes());
        b.extend(self.subject);
        b.extend(&self.key);
        b.extend(self.modulus.to_be_bytes());
        b.extend(self.exp.to_be_bytes());
        b.extend([0; 52]);
        b
    }
}

/// disc header / boot.bin, 0x440 bytes
#[derive(Clone, Debug, PartialEq)]
pub struct RHdr {
    pub game_id: [u8; 6],
    pub disc_num: u8,
    pub disc_version: u8,
    pub audio: u8,
    pub audio_buf: u8,
    pub wii_magic: u32,
    pub gcn_magic: u32,
    pub title: Vec<u8>,
    pub no_hash: u8,
    pub no_enc: u8,
    pub mon_off: u32,
    pub load_addr: u32,
    pub dol_off: u64,
    pub fst_off: u64,
    pub fst_sz: u64,
    pub fst_max: u64,
    pub fst_addr: u32,
    pub user_pos: u32,
    pub user_sz: u32,
}

impl RHdr {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![0u8; 0x440];
        put(&mut b, 0, &self.game_id);
        b[6] = self.disc_num;
        b[7] = self.disc_version;
        b[8] = self.audio;
        b[9] = self.audio_buf;
        put32(&mut b, 0x18, self.wii_magic);
        put32(&mut b, 0x1C, self.gcn_magic);
        assert!(self.title.len() <= 64);
        put(&mut b, 0x20, &self.title);
        b[0x60] = self.no_hash;
        b[0x61] = self.no_enc;
        put32(&mut b, 0x400, self.mon_off);
        put32(&mut b, 0x404, self.load_addr);
        put32(&mut b, 0x420, (self.dol_off >> 2) as u32);
        put32(&mut b, 0x424, (self.fst_off >> 2) as u32);
        put32(&mut b, 0x428, (self.fst_sz >> 2) as u32);
        put32(&mut b, 0x42C, (self.fst_max >> 2) as u32);
        put32(&mut b, 0x430, self.fst_addr);
        put32(&mut b, 0x434, self.user_pos);
        put32(&mut b, 0x438, self.user_sz);
        b
    }
    pub fn decode(b: &[u8]) -> Result<Self, String> {
        if b.len() < 0x440 {
            return Err("disc header too short".into());
        }
        let t = &b[0x20..0x60];
        let n = t.iter().position(|c| *c == 0).unwrap_or(64);
        Ok(RHdr {
            game_id: arr(b, 0),
            disc_num: b[6],
            disc_version: b[7],
            audio: b[8],
            audio_buf: b[9],
            wii_magic: get32(b, 0x18),
            gcn_magic: get32(b, 0x1C),
            title: t[..n].to_vec(),
            no_hash: b[0x60],
            no_enc: b[0x61],
            mon_off: get32(b, 0x400),
            load_addr: get32(b, 0x404),
            dol_off: (get32(b, 0x420) as u64) << 2,
            fst_off: (get32(b, 0x424) as u64) << 2,
            fst_sz: (get32(b, 0x428) as u64) << 2,
            fst_max: (get32(b, 0x42C) as u64) << 2,
            fst_addr: get32(b, 0x430),
            user_pos: get32(b, 0x434),
            user_sz: get32(b, 0x438),
        })
    }
    /// the header with the placement fields blanked out
    pub fn normalised(&self) -> RHdr {
        let mut h = self.clone();
        h.dol_off = 0;
        h.fst_off = 0;
        h.fst_sz = 0;
        h.fst_max = 0;
        h
    }
}

/// a DOL described by its header; the body is arbitrary
#[derive(Clone, Debug, PartialEq, Default)]
pub struct RDol {
    pub text_off: [u32; 7],
    pub data_off: [u32; 11],
    pub text_start: [u32; 7],
    pub data_start: [u32; 11],
    pub text_size: [u32; 7],
    pub data_size: [u32; 11],
    pub bss_start: u32,
    pub bss_size: u32,
    pub entry: u32,
}

impl RDol {
    pub fn encode_header(&self) -> Vec<u8> {
        let mut b = vec![];
        for v in self.text_off.iter().chain(&self.data_off).chain(&self.text_start).chain(&self.data_start).chain(&self.text_size).chain(&self.data_size) {
            b.extend(v.to_be_bytes());
        }
        for v in [self.bss_start, self.bss_size, self.entry] {
            b.extend(v.to_be_bytes());
        }
        assert_eq!(b.len(), 0xE4);
        b
    }
}

/// decoded file table entry tree
#[derive(Clone, Debug, PartialEq)]
pub enum FNode {
    File { name: String, off: u64, len: u32 },
    Dir { name: String, kids: Vec<FNode> },
}

impl FNode {
    pub fn name(&self) -> &str {
        match self {
            FNode::File { name, .. } | FNode::Dir { name, .. } => name,
        }
    }
}

pub fn sjis_encode(s: &str) -> Option<Vec<u8>> {
    let (b, _, err) = encoding_rs::SHIFT_JIS.encode(s);
    if err {
        return None;
    }
    Some(b.to_vec())
}

pub fn sjis_decode(b: &[u8]) -> Option<String> {
    let (s, _, err) = encoding_rs::SHIFT_JIS.decode(b);
    if err {
        return None;
    }
    Some(s.into_owned())
}

/// true if the name has an exact Shift-JIS representation
pub fn sjis_exact(s: &str) -> bool {
    match sjis_encode(s) {
        Some(b) => encoding_rs::SHIFT_JIS.decode_without_bom_handling(&b).0 == s,
        None => false,
    }
}

/// number of bytes of the table (12 bytes per entry plus strings), or an error if it is not well-formed
pub fn parse_fst(b: &[u8]) -> Result<(Vec<FNode>, usize), String> {
    if b.len() < 12 {
        return Err("file table too short".into());
    }
    if b[0] != 1 {
        return Err(format!("root entry has type {}", b[0]));
    }
    if get32(b, 0) & 0xffffff != 0 || get32(b, 4) != 0 {
        return Err("root entry has a name or parent".into());
    }
    let n = get32(b, 8) as usize;
    if n == 0 || n * 12 > b.len() {
        return Err(format!("root entry count {n} out of range"));
    }
    let strs = &b[n * 12..];
    let mut end = 0usize;
    fn rec(b: &[u8], strs: &[u8], parent: usize, idx: &mut usize, stop: usize, end: &mut usize) -> Result<Vec<FNode>, String> {
        let mut out = vec![];
        while *idx < stop {
            let i = *idx;
            let e = &b[i * 12..i * 12 + 12];
            let no = (get32(e, 0) & 0xffffff) as usize;
            if no >= strs.len() {
                return Err(format!("entry {i}: name offset {no:#x} outside the string table"));
            }
            let l = strs[no..].iter().position(|c| *c == 0).ok_or_else(|| format!("entry {i}: name not terminated"))?;
            *end = (*end).max(no + l + 1);
            let name = encoding_rs::SHIFT_JIS.decode_without_bom_handling_and_without_replacement(&strs[no..no + l]).ok_or_else(|| format!("entry {i}: name is not Shift-JIS"))?.into_owned();
            *idx += 1;
            match e[0] {
                0 => out.push(FNode::File { name, off: (get32(e, 4) as u64) << 2, len: get32(e, 8) }),
                1 => {
                    if get32(e, 4) as usize != parent {
                        return Err(format!("entry {i} ({name}): parent index {} instead of {parent}", get32(e, 4)));
                    }
                    let next = get32(e, 8) as usize;
                    if next <= i || next > stop {
                        return Err(format!("entry {i} ({name}): next index {next} outside ({i}, {stop}]"));
                    }
                    let kids = rec(b, strs, i, idx, next, end)?;
                    out.push(FNode::Dir { name, kids });
                }
                t => return Err(format!("entry {i}: type byte {t}")),
            }
        }
        Ok(out)
    }
    let mut idx = 1;
    let t = rec(b, strs, 0, &mut idx, n, &mut end)?;
    Ok((t, n * 12 + end))
}

/// encode a file table; `style` varies the string table (0 natural order, 1 reversed, 2 shared duplicates + junk)
pub fn encode_fst(tree: &[FNode], style: u64) -> Vec<u8> {
    fn count(t: &[FNode]) -> usize {
        t.iter().map(|n| 1 + if let FNode::Dir { kids, .. } = n { count(kids) } else { 0 }).sum()
    }
    fn names<'a>(t: &'a [FNode], out: &mut Vec<&'a str>) {
        for n in t {
            out.push(n.name());
            if let FNode::Dir { kids, .. } = n {
                names(kids, out);
            }
        }
    }
    let n = count(tree) + 1;
    let mut nm = vec![];
    names(tree, &mut nm);
    let mut strs: Vec<u8> = vec![];
    let mut offs = vec![0u32; n];
    match style {
        1 => {
            for (i, s) in nm.iter().enumerate().rev() {
                offs[i + 1] = strs.len() as u32;
                strs.extend(sjis_encode(s).unwrap());
                strs.push(0);
            }
        }
        2 => {
            let mut seen: std::collections::HashMap<&str, u32> = Default::default();
            strs.extend(b"junk\0\0\xfd");
            strs.push(0);
            for (i, s) in nm.iter().enumerate() {
                offs[i + 1] = *seen.entry(s).or_insert_with(|| {
                    let o = strs.len() as u32;
                    strs.extend(sjis_encode(s).unwrap());
                    strs.push(0);
                    o
                });
            }
        }
        _ => {
            strs.push(0);
            for (i, s) in nm.iter().enumerate() {
                offs[i + 1] = strs.len() as u32;
                strs.extend(sjis_encode(s).unwrap());
                strs.push(0);
            }
        }
    }
    let mut out = vec![0u8; n * 12];
    fn rec(t: &[FNode], parent: usize, idx: &mut usize, offs: &[u32], out: &mut [u8]) {
        for nd in t {
            let i = *idx;
            *idx += 1;
            match nd {
                FNode::File { off, len, .. } => {
                    put32(out, i * 12, offs[i]);
                    put32(out, i * 12 + 4, (off >> 2) as u32);
                    put32(out, i * 12 + 8, *len);
                }
                FNode::Dir { kids, .. } => {
                    put32(out, i * 12, offs[i] | 0x0100_0000);
                    put32(out, i * 12 + 4, parent as u32);
                    rec(kids, i, idx, offs, out);
                    put32(out, i * 12 + 8, *idx as u32);
                }
            }
        }
    }
    put32(&mut out, 0, 0x0100_0000);
    put32(&mut out, 8, n as u32);
    let mut idx = 1;
    rec(tree, 0, &mut idx, &offs, &mut out);
    out.extend(strs);
    out
}

/// One decoded partition of an image.
#[derive(Clone, Debug)]
pub struct DPart {
    pub ptype: u32,
    pub offset: u64,
    pub ticket: RTicket,
    pub tmd: RTmd,
    pub certs: Vec<u8>,
    pub data_start: u64,
    pub groups: u64,
    pub hdr: RHdr,
    pub fst: Vec<FNode>,
    pub fst_len: u64,
    pub plain: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct DImage {
    pub hdr: RHdr,
    pub region: [u8; 32],
    pub parts: Vec<DPart>,
}

fn sub<'a>(b: &'a [u8], at: u64, len: u64, what: &str) -> Result<&'a [u8], String> {
    let end = at.checked_add(len).ok_or_else(|| format!("{what}: overflow"))?;
    if end > b.len() as u64 {
        return Err(format!("{what}: {at:#x}+{len:#x} lies outside the image of {:#x} bytes", b.len()));
    }
    Ok(&b[at as usize..end as usize])
}

pub fn part_table(img: &[u8]) -> Result<Vec<(u64, u32)>, String> {
    let mut v = vec![];
    let t = sub(img, 0x40000, 0x20, "partition tables")?;
    for i in 0..4 {
        let n = get32(t, i * 8) as u64;
        let off = (get32(t, i * 8 + 4) as u64) << 2;
        if n == 0 {
            continue;
        }
        let e = sub(img, off, n * 8, "partition table entries")?;
        for k in 0..n as usize {
            v.push(((get32(e, k * 8) as u64) << 2, get32(e, k * 8 + 4)));
        }
    }
    Ok(v)
}

/// Strict decoder: every structure is range checked, every hash verified.
pub fn decode_image(img: &[u8]) -> Result<DImage, String> {
    let hdr = RHdr::decode(sub(img, 0, 0x440, "disc header")?)?;
    let region: [u8; 32] = arr(sub(img, 0x4E000, 32, "region")?, 0);
    let mut parts = vec![];
    for (off, ptype) in part_table(img)? {
        parts.push(decode_part(img, off, ptype, true).map_err(|e| format!("partition at {off:#x}: {e}"))?);
    }
    // partitions occupy disjoint areas
    let mut areas: Vec<(u64, u64)> = parts.iter().map(|p: &DPart| (p.offset, p.data_start + p.groups * GROUP as u64)).collect();
    areas.push((0, 0x50000));
    areas.sort();
    for w in areas.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("areas overlap: {:x?}", w));
        }
    }
    Ok(DImage { hdr, region, parts })
}

pub fn decode_part(img: &[u8], off: u64, ptype: u32, keep: bool) -> Result<DPart, String> {
    if ptype > 2 {
        return Err(format!("partition type {ptype}"));
    }
    let ph = sub(img, off, 0x2C0, "partition header")?;
    let ticket = RTicket::decode(ph)?;
    let tmd_size = get32(ph, 0x2A4) as u64;
    let tmd_off = (get32(ph, 0x2A8) as u64) << 2;
    let cert_size = get32(ph, 0x2AC) as u64;
    let cert_off = (get32(ph, 0x2B0) as u64) << 2;
    let h3_off = (get32(ph, 0x2B4) as u64) << 2;
    let data_off = (get32(ph, 0x2B8) as u64) << 2;
    let data_size = (get32(ph, 0x2BC) as u64) << 2;
    let mut areas = vec![(0u64, 0x2C0u64, "header"), (tmd_off, tmd_size, "TMD"), (cert_off, cert_size, "certificates"), (h3_off, 0x18000, "H3 table")];
    areas.sort();
    for w in areas.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("{} and {} overlap", w[0].2, w[1].2));
        }
    }
    let last = areas.last().unwrap();
    if last.0 + last.1 > data_off {
        return Err(format!("{} overlaps the encrypted data", last.2));
    }
    let tmdb = sub(img, off + tmd_off, tmd_size, "TMD")?;
    let tmd = RTmd::decode(tmdb)?;
    if tmdb.len() != 0x1E4 + 36 * tmd.contents.len() {
        return Err(format!("TMD size {:#x} does not fit {} contents", tmdb.len(), tmd.contents.len()));
    }
    let certs = sub(img, off + cert_off, cert_size, "certificates")?.to_vec();
    let h3 = sub(img, off + h3_off, 0x18000, "H3 table")?;
    if data_size == 0 || data_size % GDATA as u64 != 0 {
        return Err(format!("data size {data_size:#x} is not a positive number of whole groups"));
    }
    let groups = data_size / GDATA as u64;
    let data_start = off + data_off;
    let enc = sub(img, data_start, groups * GROUP as u64, "encrypted data")?;
    let mut plain = vec![];
    let mut first = vec![];
    for g in 0..groups as usize {
        let (p, h) = decrypt_group(&enc[g * GROUP..(g + 1) * GROUP], &ticket.title_key).map_err(|e| format!("group {g} of {groups}: {e}"))?;
        if h3[g * 20..g * 20 + 20] != h {
            return Err(format!("H3 entry of group {g} of {groups} does not match"));
        }
        if g == 0 && !keep {
            first = p;
        } else if keep {
            plain.extend_from_slice(&p);
        }
    }
    check_tmd(tmdb, &tmd, h3, data_size)?;
    let view: &[u8] = if keep { &plain } else { &first };
    let hdr = RHdr::decode(view)?;
    let fstb = sub(view, hdr.fst_off, hdr.fst_sz, "file table")?;
    let (fst, fst_len) = parse_fst(fstb)?;
    if hdr.fst_max < hdr.fst_sz {
        return Err(format!("file table max size {:#x} below its size {:#x}", hdr.fst_max, hdr.fst_sz));
    }
    Ok(DPart { ptype, offset: off, ticket, tmd, certs, data_start, groups, hdr, fst, fst_len: fst_len as u64, plain })
}

pub fn check_tmd(tmdb: &[u8], tmd: &RTmd, h3: &[u8], data_size: u64) -> Result<(), String> {
    let c = tmd.contents.first().ok_or("TMD without contents")?;
    if c.hash != sha(h3) {
        return Err("TMD content hash is not the SHA-1 of the H3 table".into());
    }
    if c.size != data_size {
        return Err(format!("TMD content size {:#x} instead of {:#x}", c.size, data_size));
    }
    if tmd.sig.iter().any(|b| *b != 0) {
        return Err("TMD signature is not zeroed".into());
    }
    if sha(&tmdb[0x140..])[0] != 0 {
        return Err("TMD hash does not start with a zero byte (not fake-signed)".into());
    }
    Ok(())
}

/// all files of a decoded table with their full path
pub fn flat(t: &[FNode]) -> Vec<(Vec<String>, u64, u32)> {
    fn rec(t: &[FNode], p: &mut Vec<String>, out: &mut Vec<(Vec<String>, u64, u32)>) {
        for n in t {
            p.push(n.name().to_string());
            match n {
                FNode::File { off, len, .. } => out.push((p.clone(), *off, *len)),
                FNode::Dir { kids, .. } => rec(kids, p, out),
            }
            p.pop();
        }
    }
    let mut o = vec![];
    rec(t, &mut vec![], &mut o);
    o
}
