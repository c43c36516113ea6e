//! C07 building from a directory.
use crate::blob::Blob;
use crate::engine::*;
use crate::model::*;
use crate::sut::*;
use crate::wiiref::*;
use disc_riider::builder::build_from_directory;
use std::io::Cursor;
use std::path::{Path, PathBuf};

/// what a directory holds besides the file tree
pub struct DirDef {
    pub region: [u8; 32],
    pub def: PartDef,
}

pub fn dir_opts() -> TreeOpts {
    TreeOpts { max_nodes: 24, max_depth: 6, no_case_collisions: true, big: true }
}

pub fn gen_dir(ctx: &mut Ctx, o: &TreeOpts) -> DirDef {
    let src = &mut ctx.src;
    let region = src.arr();
    let mut def = gen_part(src, o, 40);
    def.ptype = 0;
    if src.chance(1, 12) {
        widen(src, &mut def.tree);
    }
    if src.chance(1, 12) {
        // a long chain of directories
        let n = src.usize(8, 60);
        let mut t = vec![Node::File { name: "end".into(), data: Blob::new(33, 0, 3), pad: 0 }];
        for i in 0..n {
            let mut l = vec![Node::Dir { name: format!("d{i}"), kids: t }];
            if i % 3 == 0 {
                l.push(Node::File { name: "Side".into(), data: Blob::new(i as u64, 0, 9), pad: 0 });
            }
            t = l;
        }
        def.tree.retain(|x| lower(x.name()) != b"chain");
        def.tree.push(Node::Dir { name: "Chain".into(), kids: t });
    }
    fn nopad(t: &mut [Node]) {
        for n in t {
            match n {
                Node::File { pad, .. } => *pad = 0,
                Node::Dir { kids, .. } => nopad(kids),
            }
        }
    }
    nopad(&mut def.tree);
    sort_tree(&mut def.tree);
    let a = if o.big { Some(aim(src, &mut def, 6)) } else { None };
    ctx.describe(describe_part(&def));
    if let Some(a) = a {
        ctx.label(a);
    }
    DirDef { region, def }
}

fn io<T>(r: std::io::Result<T>) -> T {
    r.unwrap_or_else(|e| panic!("HARNESS: {e}"))
}

pub fn w(p: PathBuf, b: &[u8]) {
    io(std::fs::write(p, b));
}

/// every directory and file of the tree in an order that the permutation seed decides
pub fn write_tree(root: &Path, tree: &[Node], perm: u64) {
    let mut jobs: Vec<(Vec<String>, Option<Blob>)> = vec![];
    fn rec(t: &[Node], p: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<Blob>)>) {
        for n in t {
            p.push(n.name().to_string());
            match n {
                Node::File { data, .. } => out.push((p.clone(), Some(data.clone()))),
                Node::Dir { kids, .. } => {
                    out.push((p.clone(), None));
                    rec(kids, p, out);
                }
            }
            p.pop();
        }
    }
    rec(tree, &mut vec![], &mut jobs);
    match perm {
        0 => {}
        1 => jobs.reverse(),
        s => {
            let mut st = s;
            for i in (1..jobs.len()).rev() {
                st = mix(st);
                jobs.swap(i, st as usize % (i + 1));
            }
        }
    }
    io(std::fs::create_dir_all(root));
    for (p, b) in jobs {
        let mut f = root.to_path_buf();
        f.extend(&p);
        match b {
            None => io(std::fs::create_dir_all(f)),
            Some(b) => {
                io(std::fs::create_dir_all(f.parent().unwrap()));
                if b.kind == 1 && b.len > 1 << 20 {
                    // a sparse file
                    io(io(std::fs::File::create(f)).set_len(b.len));
                } else {
                    w(f, &b.to_vec());
                }
            }
        }
    }
}

/// an extracted directory as the Python module writes it
pub fn write_dir(dir: &Path, d: &DirDef, perm: u64) {
    let data = dir.join("DATA");
    let early = perm % 2 == 1;
    if early {
        write_tree(&data.join("files"), &d.def.tree, perm);
    }
    io(std::fs::create_dir_all(data.join("sys")));
    io(std::fs::create_dir_all(data.join("disc")));
    w(data.join("sys/boot.bin"), &d.def.hdr.encode());
    w(data.join("sys/bi2.bin"), &d.def.bi2);
    w(data.join("sys/apploader.img"), &d.def.app);
    w(data.join("sys/main.dol"), &d.def.dol);
    w(data.join("disc/region.bin"), &d.region);
    w(data.join("ticket.bin"), &d.def.ticket.encode());
    w(data.join("tmd.bin"), &d.def.tmd.encode());
    w(data.join("cert.bin"), &d.def.certs.iter().flat_map(|c| c.encode()).collect::<Vec<u8>>());
    if !early {
        write_tree(&data.join("files"), &d.def.tree, perm);
    }
}

pub fn build_dir(dir: &Path) -> Result<Vec<u8>, String> {
    let mut cur = Cursor::new(vec![]);
    build_from_directory(dir, &mut cur, &mut |_| {}).map_err(|e| format!("{e}"))?;
    Ok(cur.into_inner())
}

fn prune_f(t: &[FNode]) -> Vec<FNode> {
    t.iter()
        .filter_map(|n| match n {
            FNode::File { .. } => Some(n.clone()),
            FNode::Dir { name, kids } => {
                let k = prune_f(kids);
                if k.is_empty() {
                    None
                } else {
                    Some(FNode::Dir { name: name.clone(), kids: k })
                }
            }
        })
        .collect()
}

/// the image holds exactly the directory
pub fn check_dir_image(img: &[u8], d: &DirDef) -> Result<(), String> {
    let mut di = decode_image(img)?;
    let mut h = d.def.hdr.clone();
    h.no_enc = 0;
    h.no_hash = 0;
    if di.hdr != h {
        return Err(show("disc header", di.hdr, h));
    }
    if di.region != d.region {
        return Err(show("region", di.region, d.region));
    }
    if di.parts.len() != 1 {
        return Err(format!("{} partitions instead of 1", di.parts.len()));
    }
    // directories that hold no file may or may not be represented
    di.parts[0].fst = prune_f(&di.parts[0].fst);
    let mut want = d.def.clone();
    want.tree = prune(&want.tree);
    check_decoded_part(&di.parts[0], &want)
}

fn labels(ctx: &mut Ctx, d: &DirDef) {
    let (f, dirs) = count(&d.def.tree);
    if f >= 2 && dirs >= 1 {
        ctx.nontrivial();
    }
    ctx.label_if(f == 0, "no files");
    ctx.label_if(depth(&d.def.tree) >= 8, "depth 8 or more");
    ctx.label_if(f > 40, "wide tree");
    ctx.label_if(prune(&d.def.tree) != d.def.tree, "directories without files");
    ctx.label_if(files(&d.def.tree).iter().any(|x| x.1.len == 0), "empty file");
    ctx.label_if(d.def.hdr.no_enc != 0 || d.def.hdr.no_hash != 0, "disable flags set in boot.bin");
    let l = predict(&d.def);
    ctx.label_if(l.end > GDATA as u64, "two or more groups");
}

/// turn some files and directories into symbolic links to their moved contents
fn link(ctx: &mut Ctx, at: &Path, tree: &[Node], store: &Path, n: &mut usize) {
    for x in tree {
        let p = at.join(x.name());
        if let Node::Dir { kids, .. } = x {
            link(ctx, &p, kids, store, n);
        }
        if ctx.src.chance(1, 6) {
            let t = store.join(format!("t{n}"));
            *n += 1;
            io(std::fs::rename(&p, &t));
            io(std::os::unix::fs::symlink(&t, &p));
            ctx.label(if matches!(x, Node::Dir { .. }) { "linked directory" } else { "linked file" });
        }
    }
}

fn packs(ctx: &mut Ctx) -> Result<(), String> {
    let d = gen_dir(ctx, &dir_opts());
    let perm = ctx.src.below(1 << 16);
    labels(ctx, &d);
    let dir = ctx.fresh_dir();
    write_dir(&dir, &d, perm);
    if ctx.src.chance(1, 5) {
        // what an extraction leaves besides, and things that have nothing to do with it
        let mut junk = vec![0u8; 0x440];
        ctx.src.fill(&mut junk);
        w(dir.join("DATA/disc/header.bin"), &junk);
        w(dir.join("DATA/sys/fst.bin"), &junk);
        w(dir.join("DATA/sys/extra"), &junk);
        w(dir.join("files"), b"not this one");
        io(std::fs::create_dir_all(dir.join("UPDATE/files")));
        w(dir.join("UPDATE/files/other"), &junk);
        w(dir.join("UPDATE/ticket.bin"), &junk);
        ctx.label("other files beside");
    }
    if ctx.src.chance(1, 8) {
        let store = dir.join("elsewhere");
        io(std::fs::create_dir_all(&store));
        link(ctx, &dir.join("DATA/files"), &d.def.tree, &store, &mut 0);
    }
    let img = build_dir(&dir).map_err(|e| format!("build_from_directory failed: {e}"))?;
    check_dir_image(&img, &d)
}

/// the same tree created in different orders
fn order(ctx: &mut Ctx) -> Result<(), String> {
    let o = TreeOpts { max_nodes: 40, max_depth: 4, no_case_collisions: true, big: false };
    let d = gen_dir(ctx, &o);
    labels(ctx, &d);
    let perms = [ctx.src.below(2), 2 + ctx.src.below(1 << 16)];
    let root = ctx.fresh_dir();
    let mut imgs = vec![];
    for (i, p) in perms.iter().enumerate() {
        let dir = root.join(format!("copy{i}"));
        write_dir(&dir, &d, *p);
        let t = std::fs::FileTimes::new().set_modified(std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1000 * p + 5));
        let _ = std::fs::File::options().write(true).open(dir.join("DATA/sys/main.dol")).and_then(|f| f.set_times(t));
        imgs.push(build_dir(&dir).map_err(|e| format!("build_from_directory failed: {e}"))?);
    }
    ctx.label("two creation orders");
    short_diff("image of the directory created in another order", &imgs[1], &imgs[0])?;
    check_dir_image(&imgs[0], &d)
}

/// chains of directories around the deepest nesting the table supports
fn deep(ctx: &mut Ctx) -> Result<(), String> {
    let o = TreeOpts { max_nodes: 3, max_depth: 2, no_case_collisions: true, big: false };
    let mut d = gen_dir(ctx, &o);
    let n = match ctx.src.below(3) {
        0 => ctx.src.usize(100, 500),
        1 => ctx.src.usize(505, 520),
        _ => ctx.src.usize(500, 900),
    };
    let mut t = vec![Node::File { name: "e".into(), data: Blob::new(33, 0, 3), pad: 0 }];
    for _ in 0..n {
        t = vec![Node::Dir { name: "d".into(), kids: t }];
    }
    d.def.tree.retain(|x| lower(x.name()) != b"d");
    d.def.tree.extend(t);
    sort_tree(&mut d.def.tree);
    ctx.describe(format!("{n} nested directories"));
    ctx.nontrivial();
    let dir = ctx.fresh_dir();
    write_dir(&dir, &d, 0);
    match build_dir(&dir) {
        Ok(img) => {
            ctx.label("deep chain packed");
            check_dir_image(&img, &d)
        }
        Err(e) if n <= 500 => Err(format!("{n} nested directories are refused: {e}")),
        Err(_) => {
            ctx.label("deep chain refused");
            Ok(())
        }
    }
}

/// directories that cannot be represented
fn refused(ctx: &mut Ctx) -> Result<(), String> {
    let kind = ctx.src.below(24);
    let o = TreeOpts { max_nodes: 10, max_depth: 4, no_case_collisions: true, big: false };
    let mut d = gen_dir(ctx, &o);
    let dir = ctx.fresh_dir();
    let data = dir.join("DATA");
    let fdir = data.join("files");
    // a sub-directory for the offending names
    let sub = if ctx.src.bool() { fdir.join("Sub/deeper") } else { fdir.clone() };
    d.def.tree.retain(|n| !["sub", "big", "same"].iter().any(|x| lower(n.name()).starts_with(x.as_bytes())));
    if kind == 12 {
        d.def.tmd.contents.clear();
    }
    if kind == 13 {
        let c = d.def.tmd.contents[0].clone();
        d.def.tmd.contents.resize(ctx.src.usize(900, 2000), c);
    }
    if kind == 14 {
        d.def.bi2 = Blob::new(0x2001 + ctx.src.below(0x3000), 0, 1).to_vec();
    }
    write_dir(&dir, &d, ctx.src.below(3));
    io(std::fs::create_dir_all(&sub));
    const FILES: [&str; 8] = ["sys/boot.bin", "sys/bi2.bin", "sys/apploader.img", "sys/main.dol", "disc/region.bin", "ticket.bin", "tmd.bin", "cert.bin"];
    let what: String = match kind {
        0..=7 => {
            let f = FILES[kind as usize];
            io(std::fs::remove_file(data.join(f)));
            if ctx.src.chance(1, 3) {
                io(std::fs::create_dir(data.join(f)));
            }
            format!("{f} missing")
        }
        8 => {
            io(std::fs::remove_dir_all(&fdir));
            if ctx.src.bool() {
                w(fdir.clone(), b"a file");
            }
            "files folder missing".into()
        }
        9 => {
            // truncated metadata
            let f = *ctx.src.pick(&["sys/boot.bin", "disc/region.bin", "ticket.bin", "tmd.bin", "cert.bin"]);
            let mut len = io(std::fs::metadata(data.join(f))).len();
            // the end of these two is unused filler
            len -= match f {
                "sys/boot.bin" => 0x40,
                "cert.bin" => 52,
                _ => 0,
            };
            let cut = match ctx.src.below(3) {
                0 => len - 1,
                1 => 0,
                _ => ctx.src.below(len),
            };
            io(io(std::fs::File::options().write(true).open(data.join(f))).set_len(cut));
            format!("{f} cut to {cut:#x} bytes of {len:#x}")
        }
        10 | 11 => {
            let v = ctx.src.below(5);
            match v {
                0 => {
                    w(sub.join("Same"), b"1");
                    w(sub.join("sAme"), b"2");
                }
                1 => {
                    // a file and a directory
                    w(sub.join("same"), b"1");
                    io(std::fs::create_dir(sub.join("SAME")));
                    w(sub.join("SAME/x"), b"2");
                }
                2 => {
                    for (n, f) in [("same", "x"), ("SAME", "y")] {
                        io(std::fs::create_dir(sub.join(n)));
                        w(sub.join(n).join(f), f.as_bytes());
                    }
                }
                3 => {
                    for n in ["same", "SAME"] {
                        io(std::fs::create_dir(sub.join(n)));
                        w(sub.join(n).join("x"), n.as_bytes());
                    }
                }
                _ => {
                    for (n, f) in [("same", "a/x"), ("sAmE", "b/y"), ("SAME", "A/z")] {
                        let p = sub.join(n).join(f);
                        io(std::fs::create_dir_all(p.parent().unwrap()));
                        w(p, f.as_bytes());
                    }
                }
            }
            format!("names that collide ignoring case, variant {v}")
        }
        12 => "TMD without contents".into(),
        13 => "TMD that does not fit".into(),
        14 => "bi2 larger than its area".into(),
        15 => {
            // not UTF-8
            use std::os::unix::ffi::OsStrExt;
            let n: &[u8] = ctx.src.pick(&[&b"a\xff"[..], b"\x83\x5c", b"\xc3", b"x\xed\xa0\x80"]);
            let p = sub.join(std::ffi::OsStr::from_bytes(n));
            if ctx.src.bool() {
                w(p, b"1");
            } else {
                io(std::fs::create_dir(&p));
                w(p.join("x"), b"1");
            }
            "name that is not UTF-8".into()
        }
        16 | 17 => {
            let n = *ctx.src.pick(&["é", "ok_ñ.bin", "😀", "한글", "a\u{a5}b", "\u{203e}", "\u{2212}\u{a2}x", "ä", "𠮷", "ﬁ"]);
            if sjis_exact(n) {
                return Err(format!("HARNESS: {n:?} is representable"));
            }
            let p = sub.join(n);
            if ctx.src.bool() {
                w(p, b"1");
            } else {
                io(std::fs::create_dir(&p));
                w(p.join("x"), b"1");
            }
            format!("name {n:?} that Shift-JIS cannot represent")
        }
        18 => {
            let f = io(std::fs::File::create(sub.join("big")));
            let len = (1u64 << 32) + *ctx.src.pick(&[0u64, 1, 5, 1 << 32]);
            io(f.set_len(len));
            format!("file of {len:#x} bytes")
        }
        19 => {
            io(std::os::unix::fs::symlink("nowhere", sub.join("dangling")));
            "dangling symbolic link".into()
        }
        20 => {
            let p = sub.join("special");
            if ctx.src.bool() {
                let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
                if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
                    return Err("HARNESS: mkfifo".into());
                }
            } else {
                // a socket's name is limited in length, bind it from inside the directory
                let short = dir.join("s");
                match std::os::unix::net::UnixListener::bind(&short) {
                    Ok(_) => io(std::fs::rename(&short, &p)),
                    Err(_) => io(std::os::unix::fs::symlink("/dev/null", &p)),
                }
            }
            "a special file".into()
        }
        21 => {
            io(std::os::unix::fs::symlink(ctx.src.pick(&[".", "..", "loop"]), sub.join("loop")));
            "a symbolic link that leads into itself".into()
        }
        _ => {
            // metadata with values the format does not know
            let (f, at, v) = *ctx.src.pick(&[
                ("ticket.bin", 0usize, &[0u8, 1, 0, 3][..]),
                ("ticket.bin", 0, &[0xFF, 0xFF, 0xFF, 0xFF]),
                ("ticket.bin", 0x1F1, &[2]),
                ("ticket.bin", 0x1F1, &[0xFF]),
                ("tmd.bin", 0, &[0, 0, 0, 0]),
                ("tmd.bin", 0x1DE, &[0xFF, 0xFF]),
                ("cert.bin", 0, &[0, 1, 0, 4]),
                ("cert.bin", 1, &[0]),
            ]);
            let mut b = io(std::fs::read(data.join(f)));
            b[at..at + v.len()].copy_from_slice(v);
            w(data.join(f), &b);
            format!("{f} with {v:x?} at {at:#x}")
        }
    };
    ctx.describe(what.clone());
    ctx.label(match kind {
        0..=8 => "missing required file",
        9 => "truncated metadata file",
        10 | 11 => "case collision",
        12..=14 => "metadata that does not fit",
        15..=17 => "unrepresentable name",
        18 => "file larger than 4 GiB",
        19 => "dangling link",
        20 => "special file",
        21 => "link loop",
        _ => "unknown metadata values",
    });
    ctx.nontrivial();
    match build_dir(&dir) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("a directory that cannot be represented was built without an error: {what}")),
    }
}

/// more than 4 GiB of files, one of them longer than 2 GiB
fn giant(ctx: &mut Ctx) -> Result<(), String> {
    let o = TreeOpts { max_nodes: 6, max_depth: 3, no_case_collisions: true, big: false };
    let mut d = gen_dir(ctx, &o);
    let t = &mut d.def.tree;
    t.retain(|n| !n.name().to_ascii_lowercase().starts_with("zz-"));
    for (name, len, kind) in [("zz-a", (2u64 << 30) + (40 << 20) + 3, 1u8), ("ZZ-b", (2 << 30) - 17, 1), ("zz-c", 33, 0), ("zz-d", 5 << 20, 0), ("zz-e", 1, 0)] {
        t.push(Node::File { name: name.into(), data: Blob::new(len, kind, 77), pad: 0 });
    }
    d.def.tree = prune(&d.def.tree);
    sort_tree(&mut d.def.tree);
    ctx.describe("files with more than 4 GiB together");
    ctx.nontrivial();
    let dir = ctx.fresh_dir();
    write_dir(&dir, &d, 0);
    let mut st = crate::io::DedupStore::new(0x70000);
    build_from_directory(&dir, &mut st, &mut |_| {}).map_err(|e| format!("build_from_directory failed: {e}"))?;
    st.pos = 0;
    let mut r = disc_riider::WiiIsoReader::open(st).map_err(|e| format!("open: {e}"))?;
    let mut hdr = d.def.hdr.clone();
    hdr.no_enc = 0;
    hdr.no_hash = 0;
    let disc = crate::props::build::Disc { hdr, region: d.region, parts: vec![d.def], lens: Lens::Real };
    crate::props::build::check_disc_read(&mut r, &disc)
}

pub fn c07() -> Property {
    let mut p = Property::new(
        "C07",
        "one case = one generated directory written to a scratch file system (system files, ticket, TMD, certificates, file tree) and built; the image is decoded by the independent decoder and compared with the directory, or (suite refused) the build must fail; non-trivial = at least two files and one directory, or a directory that must be refused",
        vec![
            Suite::new("packs", 5000, 40000, packs),
            Suite::new("order", 2500, 20000, order),
            Suite::new("refused", 5000, 8000, refused),
            Suite::new("deep", 60, 1000, deep),
            Suite::enumerate("giant", 1, giant),
        ],
    );
    p.assumptions = &["directories that hold no file at any depth may be dropped", "the directory is not changed while it is built", "names differ ignoring ASCII case"];
    p
}
