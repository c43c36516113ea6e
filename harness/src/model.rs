//! Logical partition definitions and their generators.
use crate::blob::Blob;
use crate::engine::{mix, Src};
use crate::wiiref::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File { name: String, data: Blob, pad: u32 },
    Dir { name: String, kids: Vec<Node> },
}

impl Node {
    pub fn name(&self) -> &str {
        match self {
            Node::File { name, .. } | Node::Dir { name, .. } => name,
        }
    }
}

pub fn lower(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b.to_ascii_lowercase()).collect()
}

#[derive(Clone, Debug)]
pub struct PartDef {
    pub ptype: u32,
    pub ticket: RTicket,
    pub tmd: RTmd,
    pub certs: Vec<RCert>,
    pub hdr: RHdr,
    pub bi2: Vec<u8>,
    pub app: Vec<u8>,
    pub dol: Vec<u8>,
    pub tree: Vec<Node>,
}

pub fn files(tree: &[Node]) -> Vec<(Vec<String>, Blob)> {
    fn rec(t: &[Node], p: &mut Vec<String>, out: &mut Vec<(Vec<String>, Blob)>) {
        for n in t {
            p.push(n.name().to_string());
            match n {
                Node::File { data, .. } => out.push((p.clone(), data.clone())),
                Node::Dir { kids, .. } => rec(kids, p, out),
            }
            p.pop();
        }
    }
    let mut o = vec![];
    rec(tree, &mut vec![], &mut o);
    o
}

pub fn count(tree: &[Node]) -> (usize, usize) {
    let mut f = 0;
    let mut d = 0;
    for n in tree {
        match n {
            Node::File { .. } => f += 1,
            Node::Dir { kids, .. } => {
                d += 1;
                let (a, b) = count(kids);
                f += a;
                d += b;
            }
        }
    }
    (f, d)
}

pub fn depth(tree: &[Node]) -> usize {
    tree.iter().map(|n| match n {
        Node::File { .. } => 1,
        Node::Dir { kids, .. } => 1 + depth(kids),
    }).max().unwrap_or(0)
}

/// tree without directories that contain no file at any depth
pub fn prune(tree: &[Node]) -> Vec<Node> {
    tree.iter().filter_map(|n| match n {
        Node::File { .. } => Some(n.clone()),
        Node::Dir { name, kids } => {
            let k = prune(kids);
            if k.is_empty() { None } else { Some(Node::Dir { name: name.clone(), kids: k }) }
        }
    }).collect()
}

pub fn sort_tree(tree: &mut Vec<Node>) {
    tree.sort_by_key(|n| lower(n.name()));
    for n in tree {
        if let Node::Dir { kids, .. } = n {
            sort_tree(kids);
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct TreeOpts {
    pub max_nodes: usize,
    pub max_depth: usize,
    /// siblings never collide ignoring ASCII case
    pub no_case_collisions: bool,
    /// sizes of files
    pub big: bool,
}

pub const STD: TreeOpts = TreeOpts { max_nodes: 24, max_depth: 5, no_case_collisions: true, big: true };

const WORDS: [&str; 62] = [
    "a", "b", "B", "A", "aa", "ab", "aB", "Demo", "DEMO", "demo00.thp", "THP", "Stage.arc", "stage", "opening.bnr", "x.y.z", ".hidden", "a b", "a-b", "a_b", "z", "Z~", "0", "9", "%d", "日本", "テスト.bin", "表", "ソ", "能力", "ｱｲｳ", "ﾃﾞﾓ",
    "①", "ー", "file[1]", "~", "^", "a.", "..a", "...", "back\\slash", ".DS_Store", "Thumbs.db", "desktop.ini", "._a", "a~", "x.tmp", "x.bak", "x.part", ".gitkeep", "sys", "files", "disc", "boot.bin", "CON", "__MACOSX", ".git", "lost+found", "#a#", " ", "a ", "core", "x.swp",
];

/// a legal file-table name: exact in Shift-JIS, not empty, no slash, not a dot reference
pub fn gen_name(src: &mut Src) -> String {
    match src.weighted(&[6, 3, 2, 1, 1]) {
        0 => src.pick(&WORDS).to_string(),
        1 => {
            let n = src.usize(1, 8);
            (0..n).map(|_| *src.pick(b"abcXYZ019._-[`{@") as char).collect::<String>()
        }
        2 => {
            let n = src.usize(1, 6);
            let s: String = (0..n)
                .map(|_| *src.pick(&['亜', '表', 'ソ', 'あ', 'Ａ', 'ｱ', 'ﾟ', 'a', 'Z', '\\', '～', '熙', '①', 'Ⅰ', '纊', '\u{2225}', 'я', 'Ω']))
                .collect();
            s
        }
        3 => {
            // long name
            let n = src.usize(30, 180);
            let c = *src.pick(&['q', 'Q', 'w']);
            std::iter::repeat(c).take(n).collect()
        }
        _ => {
            // any printable ASCII byte (except slash)
            let n = src.usize(1, 4);
            (0..n).map(|_| {
                let c = src.range(0x20, 0x7e) as u8 as char;
                if c == '/' { '!' } else { c }
            }).collect()
        }
    }
}

pub fn fix_name(mut s: String) -> String {
    s.retain(|c| c != '/' && c != '\0');
    if s.is_empty() || s == "." || s == ".." || !sjis_exact(&s) {
        s = "n".into();
    }
    s
}

fn unique(src: &mut Src, have: &[Node], nocase: bool) -> String {
    let mut s = fix_name(gen_name(src));
    let clash = |s: &str| have.iter().any(|n| if nocase { lower(n.name()) == lower(s) } else { n.name() == s });
    let mut i = 0;
    let base = s.clone();
    while clash(&s) {
        s = format!("{base}{i}");
        i += 1;
    }
    s
}

pub fn gen_len(src: &mut Src, big: bool) -> u64 {
    match src.weighted(&[3, 4, 3, 3, 2, if big { 2 } else { 0 }, if big { 1 } else { 0 }]) {
        0 => src.range(1, 100),
        1 => src.range(0, 0x900),
        2 => 0,
        3 => {
            let m = *src.pick(&[4u64, 0x20, 0x40, 0x400, 0x7C00, 0x8000, 0x10000]);
            (m * src.range(1, 4)).saturating_add(src.range(0, 4)).saturating_sub(2)
        }
        4 => src.range(0, 0x30000),
        5 => {
            let m = *src.pick(&[GDATA as u64, GROUP as u64]);
            m + src.range(0, 0x100) - 0x80
        }
        _ => src.range(0, 3 * GDATA as u64),
    }
}

pub fn gen_blob(src: &mut Src, len: u64) -> Blob {
    let kind = src.weighted(&[8, 1, 1, 1, 1]) as u8;
    let seed = src.below(1 << 16);
    Blob::new(len, kind, seed)
}

pub fn gen_tree(src: &mut Src, o: &TreeOpts) -> Vec<Node> {
    let mut budget = match src.weighted(&[4, 3, 1]) {
        0 => src.usize(0, 6.min(o.max_nodes)),
        1 => src.usize(0, o.max_nodes),
        _ => src.usize(0, 1),
    };
    let mut t = gen_level(src, o, &mut budget, 0);
    if o.max_depth >= 4 && src.chance(1, 40) {
        // one directory with hundreds of entries
        // sometimes with long names: a file table of up to 1/2 MiB
        let long = src.weighted(&[4, 1, 2]);
        let n = if long == 2 { src.usize(60, 2500) } else { src.usize(60, 700) };
        let dirs = if long == 2 { 0 } else { src.weighted(&[2, 1, 1]) };
        let tail = match long {
            0 => String::new(),
            1 => "_some_quite_long_file_name".to_string(),
            _ => "long".repeat(45),
        };
        let kids = (0..n)
            .map(|i| {
                let f = |name: String| Node::File { name, data: Blob::new((i as u64 * 13) % 70, 0, i as u64), pad: 0 };
                match dirs {
                    1 => Node::Dir { name: format!("d{i:03}"), kids: vec![f("same".into())] },
                    2 if i % 5 == 0 => Node::Dir { name: format!("e{i:03}"), kids: vec![f(format!("x{i}")), Node::Dir { name: "y".into(), kids: vec![f("z".into())] }] },
                    _ => f(format!("f{i:03}{tail}")),
                }
            })
            .collect();
        let name = src.pick(&["Many", "THP", "a", "zz"]).to_string();
        t.retain(|x| lower(x.name()) != lower(&name));
        t.insert(src.usize(0, t.len()), Node::Dir { name, kids });
    }
    if o.max_depth >= 4 && src.chance(1, 12) {
        // everything below a long chain of directories
        let n = src.usize(1, 30);
        for i in 0..n {
            let name = if src.chance(1, 6) { fix_name(gen_name(src)) } else { format!("{i}") };
            let mut level = vec![Node::Dir { name, kids: t }];
            if src.chance(1, 6) {
                let len = gen_len(src, false);
                level.insert(src.usize(0, 1), Node::File { name: "beside".into(), data: gen_blob(src, len), pad: 0 });
                if lower(level[0].name()) == lower(level[1].name()) {
                    level.retain(|n| matches!(n, Node::Dir { .. }));
                }
            }
            t = level;
        }
    }
    t
}

fn gen_level(src: &mut Src, o: &TreeOpts, budget: &mut usize, d: usize) -> Vec<Node> {
    let mut out = vec![];
    let stop = if d > 0 && src.chance(1, 5) { 12 } else { 3 };
    while *budget > 0 {
        if d > 0 && !out.is_empty() && src.chance(1, stop) {
            break;
        }
        *budget -= 1;
        let name = unique(src, &out, o.no_case_collisions);
        if d + 1 < o.max_depth && src.chance(3, 10) {
            let kids = if src.chance(1, 6) { vec![] } else { gen_level(src, o, budget, d + 1) };
            out.push(Node::Dir { name, kids });
        } else {
            let len = gen_len(src, o.big);
            let data = gen_blob(src, len);
            let pad = match src.weighted(&[8, 1, 1]) {
                0 => 0,
                1 => src.range(1, 0x100) as u32,
                _ => src.range(0x3f, 0x9000) as u32,
            };
            out.push(Node::File { name, data, pad });
        }
    }
    out
}

pub fn gen_sig_type(src: &mut Src) -> u32 {
    0x10000 + [1, 0, 2][src.below(3) as usize]
}

pub fn gen_ticket(src: &mut Src) -> RTicket {
    let mut limits = [(0u32, 0u32); 8];
    if src.bool() {
        for l in limits.iter_mut() {
            *l = (src.int(32) as u32, src.int(32) as u32);
        }
    }
    RTicket {
        sig_type: gen_sig_type(src),
        sig: src.arr(),
        issuer: src.arr(),
        ecdh: src.arr(),
        title_key: src.arr(),
        ticket_id: src.arr(),
        console_id: src.arr(),
        title_id: src.arr(),
        unk: src.int(16) as u16,
        version: src.int(16) as u16,
        permitted_mask: src.int(32) as u32,
        permit_mask: src.int(32) as u32,
        export_allowed: src.int(8) as u8,
        key_idx: src.below(2) as u8,
        access: src.arr(),
        unk2: src.int(16) as u16,
        limits,
    }
}

pub fn gen_tmd(src: &mut Src, max_contents: usize) -> RTmd {
    let n = match src.weighted(&[6, 2, 1]) {
        0 => 1,
        1 => src.usize(1, 4.min(max_contents)),
        _ => src.usize(1, max_contents),
    };
    let mut filler = [0u64; 7];
    if src.bool() {
        for f in filler.iter_mut() {
            *f = src.int(64);
        }
    }
    RTmd {
        sig_type: gen_sig_type(src),
        sig: src.arr(),
        issuer: src.arr(),
        version: src.int(8) as u8,
        ca_crl: src.int(8) as u8,
        signer_crl: src.int(8) as u8,
        ios_major: src.int(32) as u32,
        ios_minor: src.int(32) as u32,
        title_major: src.int(32) as u32,
        title_minor: src.arr(),
        title_type: src.int(32) as u32,
        group_id: src.int(16) as u16,
        filler,
        access_flags: src.int(32) as u32,
        title_version: src.int(16) as u16,
        boot_idx: src.int(16) as u16,
        contents: (0..n)
            .map(|_| RContent { id: src.int(32) as u32, index: src.int(16) as u16, ctype: src.int(16) as u16, size: src.int(64), hash: src.arr() })
            .collect(),
    }
}

pub fn gen_cert(src: &mut Src) -> RCert {
    let sig_type = gen_sig_type(src);
    let key_type = src.below(2) as u32 ^ 1;
    let mut sig = vec![0; cert_sig_len(sig_type)];
    src.fill(&mut sig);
    let mut key = vec![0; cert_key_len(key_type)];
    src.fill(&mut key);
    RCert { sig_type, sig, issuer: src.arr(), key_type, subject: src.arr(), key, modulus: src.int(32) as u32, exp: src.int(32) as u32 }
}

pub fn gen_title(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[4, 2, 1, 1, 1, 1, 1]) {
        0 => b"Some Game: The Title".to_vec(),
        6 => {
            // pieces of valid and broken UTF-8, private use characters among them
            let mut t = vec![];
            for _ in 0..src.usize(1, 12) {
                let piece: Vec<u8> = match src.below(6) {
                    0 => char::from_u32(0xF700 + src.below(0x100) as u32).unwrap().to_string().into_bytes(),
                    1 => char::from_u32(src.range(0xE000, 0xFFFD) as u32).unwrap().to_string().into_bytes(),
                    2 => char::from_u32(src.range(0x10000, 0x10FFFF) as u32).unwrap().to_string().into_bytes(),
                    3 => char::from_u32(src.range(0x80, 0xD7FF) as u32).unwrap().to_string().into_bytes(),
                    4 => vec![src.range(0x80, 0xff) as u8],
                    _ => vec![src.range(1, 0x7f) as u8],
                };
                if t.len() + piece.len() <= 64 {
                    t.extend(piece);
                }
            }
            t
        }
        1 => {
            let n = src.usize(0, 64);
            (0..n).map(|_| src.range(0x20, 0x7e) as u8).collect()
        }
        2 => "タイトル é ß".as_bytes().to_vec(),
        3 => {
            let n = 62 + src.usize(0, 2);
            vec![b'T'; n]
        }
        4 => {
            // arbitrary bytes, for example Shift-JIS
            let n = src.usize(0, 64);
            (0..n).map(|_| src.range(1, 0xff) as u8).collect()
        }
        _ => sjis_encode("ゼルダの伝説 スカイウォードソード").unwrap(),
    }
}

pub fn gen_hdr(src: &mut Src) -> RHdr {
    RHdr {
        game_id: src.arr(),
        disc_num: src.int(8) as u8,
        disc_version: src.int(8) as u8,
        audio: src.int(8) as u8,
        audio_buf: src.int(8) as u8,
        wii_magic: if src.chance(1, 8) { src.int(32) as u32 } else { 0x5D1C9EA3 },
        gcn_magic: match src.weighted(&[6, 1, 1]) {
            0 => 0,
            1 => src.int(32) as u32,
            _ => 0xC2339F3D,
        },
        title: gen_title(src),
        no_hash: src.int(8) as u8,
        no_enc: src.int(8) as u8,
        mon_off: src.int(32) as u32,
        load_addr: src.int(32) as u32,
        dol_off: src.int(32) << 2,
        fst_off: src.int(32) << 2,
        fst_sz: src.int(32) << 2,
        fst_max: src.int(32) << 2,
        fst_addr: src.int(32) as u32,
        user_pos: src.int(32) as u32,
        user_sz: src.int(32) as u32,
    }
}

/// contents of system areas: mostly random, some end in zeroes, some are all zero
fn sys_kind(seed: u64) -> u8 {
    match mix(seed ^ 0x5157) % 8 {
        0 | 1 => 4,
        2 => 1,
        _ => 0,
    }
}

/// a DOL of exactly the sections its header declares (length = end of the last section)
pub fn gen_dol(src: &mut Src, big: bool) -> Vec<u8> {
    let mut h = RDol::default();
    let nt = src.usize(1, 7);
    let nd = src.usize(0, 11);
    let simple = !src.chance(1, 4);
    let mut order: Vec<usize> = (0..nt).chain(7..7 + nd).collect();
    if !simple {
        for i in (1..order.len()).rev() {
            let j = src.usize(0, i);
            order.swap(i, j);
        }
    }
    let mut at = 0x100u32;
    for (k, s) in order.iter().enumerate() {
        let last = k + 1 == order.len();
        let mut size = match src.weighted(&[5, 2, 1, if big { 1 } else { 0 }]) {
            0 => 0x20 * src.range(1, 40) as u32,
            1 => src.range(1, 0x900) as u32,
            2 => 0x20 * src.range(1, 0x800) as u32,
            _ => src.range(0x1000, 0x100000) as u32,
        };
        if simple && !last {
            size = (size + 0x1f) & !0x1f;
        }
        if !simple {
            at += 0x20 * src.below(4) as u32;
        }
        let addr = 0x8000_4000u32.wrapping_add(at);
        if *s < 7 {
            h.text_off[*s] = at;
            h.text_size[*s] = size;
            h.text_start[*s] = addr;
        } else {
            h.data_off[*s - 7] = at;
            h.data_size[*s - 7] = size;
            h.data_start[*s - 7] = addr;
        }
        at += size;
        if !last {
            at = (at + 0x1f) & !0x1f;
        }
    }
    h.bss_start = src.int(32) as u32;
    h.bss_size = src.int(32) as u32;
    h.entry = src.int(32) as u32;
    let seed = src.below(1 << 16);
    let mut out = Blob::new(at as u64, sys_kind(seed), seed ^ 0xD01).to_vec();
    let hb = h.encode_header();
    out[..hb.len()].copy_from_slice(&hb);
    out[hb.len()..0x100].fill(0);
    out
}

/// a DOL whose first section ends at `end`, followed by up to three small ones in some order of the table
pub fn big_dol(src: &mut Src, end: u32) -> Vec<u8> {
    let mut h = RDol::default();
    let mut at = end;
    h.text_off[0] = 0x100;
    h.text_size[0] = end - 0x100;
    for _ in 0..src.usize(0, 3) {
        let size = src.range(1, 0x900) as u32;
        at = (at + 0x1f) & !0x1f;
        let k = src.usize(0, 10);
        if h.data_size[k] == 0 {
            h.data_off[k] = at;
            h.data_size[k] = size;
            at += size;
        }
    }
    let len = h.text_off.iter().zip(&h.text_size).chain(h.data_off.iter().zip(&h.data_size)).map(|(a, b)| a + b).max().unwrap();
    let seed = src.below(1 << 16);
    let mut out = Blob::new(len as u64, sys_kind(seed), seed ^ 0xD03).to_vec();
    let hb = h.encode_header();
    out[..hb.len()].copy_from_slice(&hb);
    out
}

/// a DOL of exactly `len` bytes (>= 0x120) with one text section
pub fn dol_of_len(len: u64, seed: u64) -> Vec<u8> {
    let mut h = RDol::default();
    h.text_off[0] = 0x100;
    h.text_size[0] = len as u32 - 0x100;
    let mut out = Blob::new(len, sys_kind(seed), seed ^ 0xD02).to_vec();
    let hb = h.encode_header();
    out[..hb.len()].copy_from_slice(&hb);
    out
}

pub fn app_of_len(s1: u32, s2: u32, seed: u64) -> Vec<u8> {
    let len = 32 + s1 as u64 + s2 as u64;
    let mut out = Blob::new(len, sys_kind(seed), seed ^ 0xA99).to_vec();
    put32(&mut out, 0x14, s1);
    put32(&mut out, 0x18, s2);
    out
}

pub fn gen_app(src: &mut Src) -> Vec<u8> {
    let s1 = match src.weighted(&[3, 2, 1]) {
        0 => src.range(0, 0x400) as u32,
        1 => 0,
        _ => src.range(0, 0x20000) as u32,
    };
    let s2 = match src.weighted(&[5, 5, 1]) {
        0 => 0,
        1 => src.range(0, 0x3000) as u32,
        _ => src.range(0xF000, 0x30000) as u32,
    };
    let seed = src.below(1 << 16);
    app_of_len(s1, s2, seed)
}

pub fn gen_bi2(src: &mut Src) -> Vec<u8> {
    let len = match src.weighted(&[3, 1, 1]) {
        0 => 0x2000,
        1 => src.usize(0, 0x2000),
        _ => 0x2000 - src.usize(0, 2),
    };
    let seed = src.below(1 << 16);
    Blob::new(len as u64, sys_kind(seed), seed ^ 0xB12).to_vec()
}

/// position of the boot executable, file table and files in the layout the builder uses today. Only used to aim sizes at boundaries.
pub struct Layout {
    pub dol: u64,
    pub fst: u64,
    pub fst_end: u64,
    pub files: Vec<(u64, u64)>,
    pub end: u64,
}

pub fn al(v: u64, a: u64) -> u64 {
    (v + a - 1) / a * a
}

pub fn predict(d: &PartDef) -> Layout {
    fn strs(t: &[Node]) -> (u64, u64) {
        let mut n = 0;
        let mut s = 0;
        for x in t {
            n += 1;
            s += sjis_encode(x.name()).map_or(1, |b| b.len() as u64) + 1;
            if let Node::Dir { kids, .. } = x {
                let (a, b) = strs(kids);
                n += a;
                s += b;
            }
        }
        (n, s)
    }
    let dol = al(0x2440 + d.app.len() as u64, 0x20);
    let fst = al(dol + d.dol.len() as u64, 0x20);
    let (n, s) = strs(&d.tree);
    let fst_end = fst + 12 * (n + 1) + s + 1 + 4;
    let mut pos = al(fst_end, 0x40);
    let mut fs = vec![];
    fn rec(t: &[Node], pos: &mut u64, fs: &mut Vec<(u64, u64)>) {
        for x in t {
            match x {
                Node::File { data, pad, .. } => {
                    fs.push((*pos, *pos + data.len));
                    *pos = al(*pos + data.len + *pad as u64, 0x40);
                }
                Node::Dir { kids, .. } => rec(kids, pos, fs),
            }
        }
    }
    rec(&d.tree, &mut pos, &mut fs);
    Layout { dol, fst, fst_end, files: fs, end: pos }
}

pub fn set_file_len(tree: &mut [Node], idx: usize, len: u64) {
    fn rec(tree: &mut [Node], k: &mut usize, len: u64) -> bool {
        for n in tree {
            match n {
                Node::File { data, .. } => {
                    if *k == 0 {
                        data.len = len;
                        return true;
                    }
                    *k -= 1;
                }
                Node::Dir { kids, .. } => {
                    if rec(kids, k, len) {
                        return true;
                    }
                }
            }
        }
        false
    }
    let mut k = idx;
    rec(tree, &mut k, len);
}

fn near(src: &mut Src, step: u64) -> i64 {
    let x = *src.pick(&[0i64, 1, -1, 4, -4, 0x20, -0x20, 0x40, -0x40, 0x80, -0x80, 0x3f, -0x3f]);
    if src.chance(1, 6) { src.below(step) as i64 } else { x }
}

/// adjust sizes so that something lands on or straddles a block or group boundary
pub fn aim(src: &mut Src, d: &mut PartDef, max_groups: u64) -> &'static str {
    let table = predict(d).fst_end - predict(d).fst > 0x2000;
    let kind = src.weighted(&[3, 4, if table { 12 } else { 2 }, 2, 2, 1]);
    let g = GDATA as u64;
    match kind {
        0 => "free",
        1 => {
            // end of a file near a boundary
            let l = predict(d);
            if l.files.is_empty() {
                return "free";
            }
            let i = src.usize(0, l.files.len() - 1);
            let step = if src.chance(1, 3) { BDATA as u64 } else { g };
            let k = 1 + src.below(2);
            let start = l.files[i].0;
            let target = al(start + 1, step) + (k - 1) * step;
            let end = (target as i64 + near(src, step)).max(start as i64) as u64;
            if (end + (l.end - l.files[i].1)) / g < max_groups {
                set_file_len(&mut d.tree, i, end - start);
                return "file end aimed at boundary";
            }
            "free"
        }
        2 => {
            // file table straddles or touches the first group boundary (size of DOL)
            let l = predict(d);
            let fl = l.fst_end - l.fst;
            let want = (g as i64 - src.below(fl + 0x60) as i64) & !0x1f;
            let len = (want + near(src, 0x40)).max(0x2600) as u64 - l.dol.min(0x2480);
            d.dol = dol_of_len(len.max(0x200), src.below(1 << 16));
            "file table near group boundary"
        }
        3 => {
            // the executable ends near a group boundary
            let l = predict(d);
            let len = (g as i64 + near(src, 0x1000) - l.dol as i64).max(0x200) as u64;
            d.dol = dol_of_len(len, src.below(1 << 16));
            "executable ends near group boundary"
        }
        4 => {
            // apploader up to the boundary
            let len = (g as i64 - 0x2440 - 32 + near(src, 0x1000)) as u32;
            d.app = app_of_len(len, 0, src.below(1 << 16));
            "apploader ends near group boundary"
        }
        _ => {
            // end of everything exactly at a group end
            let l = predict(d);
            if l.files.is_empty() {
                return "free";
            }
            let i = l.files.len() - 1;
            let start = l.files[i].0;
            let target = al(start + 1, g) - 0x40 * src.below(3);
            if target > start {
                set_file_len(&mut d.tree, i, target - start);
            }
            "partition ends at group end"
        }
    }
}

/// blow the tree up to a large file table
pub fn widen(src: &mut Src, tree: &mut Vec<Node>) {
    // sometimes a name area larger than a block, rarely one larger than a group
    let huge = src.chance(1, 25);
    let n = if huge { src.usize(8000, 12000) } else { src.usize(50, 900) };
    let long = src.weighted(&[3, 2, 2]);
    let long = if huge { 2 } else { long };
    let mut kids = vec![];
    for i in 0..n {
        let name = match long {
            0 => format!("f{i:04}"),
            1 => format!("some_quite_long_file_name_with_number_{i:05}.bin"),
            _ => format!("{i:05}{}", "long".repeat(50)),
        };
        kids.push(Node::File { name, data: Blob::new((i as u64 * 7) % 90, 0, i as u64), pad: 0 });
    }
    tree.push(Node::Dir { name: "zz_wide".into(), kids });
    tree.dedup_by(|a, b| lower(a.name()) == lower(b.name()));
}

pub fn gen_part(src: &mut Src, o: &TreeOpts, max_contents: usize) -> PartDef {
    let ptype = src.below(3) as u32;
    let ticket = gen_ticket(src);
    let tmd = gen_tmd(src, max_contents);
    let certs = (0..3).map(|_| gen_cert(src)).collect();
    let hdr = gen_hdr(src);
    let bi2 = gen_bi2(src);
    let app = gen_app(src);
    let dol = gen_dol(src, o.big);
    let tree = gen_tree(src, o);
    PartDef { ptype, ticket, tmd, certs, hdr, bi2, app, dol, tree }
}

/// largest number of TMD contents that fits between the partition header and the H3 table with 3 certificates of maximal size
pub fn max_contents() -> usize {
    let cert = 4 + 512 + 60 + 64 + 4 + 64 + 512 + 8 + 52;
    (0x8000 - 0x2C0 - 0x1E4 - 3 * cert - 0x20) / 36
}

pub fn describe_tree(t: &[Node]) -> String {
    let mut s = String::new();
    for n in t.iter().take(12) {
        match n {
            Node::File { name, data, pad } => s.push_str(&format!("{name:?}:{:#x}{} ", data.len, if *pad > 0 { format!("+{pad:#x}") } else { String::new() })),
            Node::Dir { name, kids } => s.push_str(&format!("{name:?}/[{}] ", describe_tree(kids))),
        }
    }
    if t.len() > 12 {
        s.push_str(&format!("... {} entries", t.len()));
    }
    s.trim_end().to_string()
}

pub fn describe_part(d: &PartDef) -> String {
    format!(
        "part type {} key {} app {:#x} dol {:#x} bi2 {:#x} contents {} tree [{}]",
        d.ptype, d.ticket.key_idx, d.app.len(), d.dol.len(), d.bi2.len(), d.tmd.contents.len(), describe_tree(&d.tree)
    )
}
