//! C08, C09, C17, C19: the Python extractor.
use crate::engine::*;
use crate::model::*;
use crate::pyworker::*;
use crate::refimage::*;
use crate::sut::*;
use crate::wiiref::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub type Files = BTreeMap<String, Vec<u8>>;

pub const SECTIONS: [&str; 3] = ["DATA", "UPDATE", "CHANNEL"];

pub fn io<T>(r: std::io::Result<T>) -> T {
    r.unwrap_or_else(|e| panic!("HARNESS: {e}"))
}

pub fn some_case(src: &mut Src, s: &str) -> String {
    match src.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        2 => s[..1].to_string() + &s[1..].to_ascii_lowercase(),
        _ => s.chars().map(|c| if src.bool() { c.to_ascii_lowercase() } else { c }).collect(),
    }
}

/// index of the partition that a section name denotes: the first of that type
pub fn section_part(img: &RefImage, name: &str) -> Option<usize> {
    let t = SECTIONS.iter().position(|s| s.eq_ignore_ascii_case(name))? as u32;
    img.parts.iter().position(|p| p.def.ptype == t)
}

/// file paths of a table in tree order with offset and length
pub fn listing(p: &RefPart) -> Vec<(String, u64, u32)> {
    flat(&p.fst).into_iter().map(|(n, o, l)| (n.join("/"), o, l)).collect()
}

/// what an extraction of one section must contain, relative to the section folder
pub fn expected(img: &RefImage, p: &RefPart, removed: &BTreeSet<String>) -> Files {
    let mut m = Files::new();
    m.insert("disc/header.bin".into(), img.hdr.encode());
    m.insert("disc/region.bin".into(), img.region.to_vec());
    m.insert("sys/boot.bin".into(), p.hdr.encode());
    m.insert("sys/bi2.bin".into(), p.def.bi2.clone());
    m.insert("sys/apploader.img".into(), p.def.app.clone());
    m.insert("sys/main.dol".into(), p.def.dol.clone());
    m.insert("sys/fst.bin".into(), p.plain.slice(p.hdr.fst_off, p.hdr.fst_sz));
    m.insert("cert.bin".into(), p.def.certs.iter().flat_map(|c| c.encode()).collect());
    m.insert("tmd.bin".into(), p.def.tmd.encode());
    m.insert("ticket.bin".into(), p.def.ticket.encode());
    for (path, off, len) in listing(p) {
        if !removed.contains(&path) {
            m.insert(format!("files/{path}"), p.plain.slice(off, len as u64));
        }
    }
    m
}

/// every file and directory below `root`
pub fn read_tree(root: &Path) -> (Files, BTreeSet<String>) {
    let mut f = Files::new();
    let mut d = BTreeSet::new();
    fn rec(p: &Path, rel: &str, f: &mut Files, d: &mut BTreeSet<String>) {
        for e in io(std::fs::read_dir(p)) {
            let e = io(e);
            let name = e.file_name();
            let n = format!("{rel}{}", name.to_string_lossy());
            let t = io(e.file_type());
            if t.is_dir() {
                d.insert(n.clone());
                rec(&e.path(), &format!("{n}/"), f, d);
            } else if t.is_symlink() {
                f.insert(n, format!("symlink to {:?}", std::fs::read_link(e.path())).into_bytes());
            } else {
                f.insert(n, io(std::fs::read(e.path())));
            }
        }
    }
    if root.is_dir() {
        rec(root, "", &mut f, &mut d);
    }
    (f, d)
}

/// directories that may exist for a set of files; directories of the table without files may be created or not
fn allowed_dirs(fst: &[FNode]) -> BTreeSet<String> {
    let mut s: BTreeSet<String> = ["disc", "sys", "files"].iter().map(|x| x.to_string()).collect();
    fn rec(t: &[FNode], at: &str, s: &mut BTreeSet<String>) {
        for n in t {
            if let FNode::Dir { name, kids } = n {
                let p = format!("{at}/{name}");
                rec(kids, &p, s);
                s.insert(p);
            }
        }
    }
    rec(fst, "files", &mut s);
    s
}

pub fn same_files(what: &str, got: &Files, want: &Files) -> Result<(), String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{what}: {k:?} is missing")),
            Some(g) => short_diff(&format!("{what}: {k:?}"), g, v)?,
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Err(format!("{what}: unexpected file {k:?}"));
        }
    }
    Ok(())
}

pub fn check_section(dest: &Path, img: &RefImage, name: &str, removed: &BTreeSet<String>, extra_dirs: &BTreeSet<String>) -> Result<(), String> {
    let up = name.to_ascii_uppercase();
    let p = &img.parts[section_part(img, name).unwrap()];
    let (f, d) = read_tree(&dest.join(&up));
    same_files(&up, &f, &expected(img, p, removed))?;
    let ok = allowed_dirs(&p.fst);
    for x in &d {
        if !ok.contains(x) && !extra_dirs.contains(x) {
            return Err(format!("{up}: unexpected directory {x:?}"));
        }
    }
    Ok(())
}

fn only_sections(dest: &Path, names: &[String]) -> Result<(), String> {
    if !dest.exists() {
        return Ok(());
    }
    for e in io(std::fs::read_dir(dest)) {
        let n = io(e).file_name().to_string_lossy().to_string();
        if !names.iter().any(|x| x.to_ascii_uppercase() == n) {
            return Err(format!("unexpected entry {n:?} in the destination"));
        }
    }
    Ok(())
}

fn s(p: &Path) -> Value {
    Value::String(p.to_str().unwrap().to_string())
}

fn opts() -> ImgOpts {
    ImgOpts { tree: TreeOpts { max_nodes: 16, max_depth: 4, no_case_collisions: false, big: true }, max_parts: 3, max_groups: 4, max_contents: 40, ..IMG }
}

fn label_img(ctx: &mut Ctx, img: &RefImage) {
    ctx.describe(img.describe());
    let files: usize = img.parts.iter().map(|p| listing(p).len()).sum();
    if files >= 2 {
        ctx.nontrivial();
    }
    ctx.label_if(files == 0, "no files");
    ctx.label_if(files > 60, "hundreds of files");
    ctx.label_if(img.parts.iter().any(|p| p.fst_bytes.len() > 0x40000), "file table above 256 KiB");
    ctx.label_if(img.is_giant(), "image larger than 4 GiB");
    ctx.label_if(img.parts.len() > 1, "several partitions");
    ctx.label_if(img.parts.iter().any(|p| listing(p).iter().any(|x| x.2 == 0)), "empty file");
    ctx.label_if(img.parts.iter().any(|p| listing(p).iter().any(|x| x.2 > 0x10000)), "file above 64 KiB");
    ctx.label_if(img.parts.iter().any(|p| listing(p).iter().any(|x| x.1 / GDATA as u64 != (x.1 + (x.2 as u64).max(1) - 1) / GDATA as u64)), "file crosses a group");
}

/// sections of the image in a random order, at least one
fn choose_sections(ctx: &mut Ctx, img: &RefImage) -> Vec<String> {
    let mut names: Vec<&str> = SECTIONS.iter().copied().filter(|n| section_part(img, n).is_some()).collect();
    for i in (1..names.len()).rev() {
        let j = ctx.src.usize(0, i);
        names.swap(i, j);
    }
    let k = ctx.src.usize(1, names.len());
    names.truncate(k);
    names.into_iter().map(|n| some_case(&mut ctx.src, n)).collect()
}

fn exact(ctx: &mut Ctx) -> Result<(), String> {
    let giant = ctx.src.chance(1, 10);
    let img = gen_image(&mut ctx.src, &ImgOpts { giant, ..opts() });
    label_img(ctx, &img);
    let dir = ctx.fresh_dir();
    let iso = dir.join("image.iso");
    io(img.write_file(&iso));
    let dest = dir.join(*ctx.src.pick(&["out", "a/b/out", "出力 dir", "o'ut"]));
    let names = choose_sections(ctx, &img);
    ctx.label_if(names.len() > 1, "several sections extracted");
    let mut extra = BTreeSet::new();
    // leftovers of an earlier extraction: longer, shorter or unrelated contents at the places that are written
    if ctx.src.chance(1, 3) {
        ctx.label("stale files in the destination");
        for n in &names {
            let p = &img.parts[section_part(&img, n).unwrap()];
            let sec = dest.join(n.to_ascii_uppercase());
            for (path, data) in expected(&img, p, &BTreeSet::new()) {
                if ctx.src.chance(1, 3) {
                    let f = sec.join(&path);
                    io(std::fs::create_dir_all(f.parent().unwrap()));
                    let l = match ctx.src.below(4) {
                        3 => data.len(),
                        0 => data.len() + 100,
                        1 => data.len() / 2,
                        _ => 2 * data.len() + 1,
                    };
                    io(std::fs::write(f, vec![0xEE; l]));
                }
            }
            extra = read_tree(&sec).1;
        }
    } else if ctx.src.bool() {
        io(std::fs::create_dir_all(&dest));
    }
    let mut ops = vec![json!(["open", s(&iso)])];
    for n in &names {
        ops.push(json!(["prepare", n]));
        if ctx.src.chance(1, 3) {
            ops.push(json!(["hash", some_case(&mut ctx.src, n)]));
        }
    }
    ops.push(json!(["extract", s(&dest), "plain"]));
    let r = py(ctx, Value::Array(ops.clone()))?;
    for (o, x) in ops.iter().zip(&r) {
        expect_ok(x, &o.to_string())?;
    }
    for n in &names {
        check_section(&dest, &img, n, &BTreeSet::new(), &extra)?;
    }
    only_sections(&dest, &names)
}

/// images that end too early: success is only acceptable when everything is still complete
fn incomplete(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { max_parts: 2, ..opts() };
    let img = gen_image(&mut ctx.src, &o);
    label_img(ctx, &img);
    let dir = ctx.fresh_dir();
    let iso = dir.join("image.iso");
    io(img.write_file(&iso));
    let names = choose_sections(ctx, &img);
    let pi = section_part(&img, &names[0]).unwrap();
    let p = &img.parts[pi];
    let fl = listing(p);
    let f = io(std::fs::OpenOptions::new().write(true).open(&iso));
    let mut must_fail = false;
    if ctx.src.bool() || fl.is_empty() {
        let base = p.off + p.data_off;
        let cut = match ctx.src.below(3) {
            0 => base + ctx.src.below(p.groups * GROUP as u64),
            1 => base + GROUP as u64 * ctx.src.below(p.groups) + *ctx.src.pick(&[0u64, 1, 0x8000]),
            _ => (base + p.groups * GROUP as u64).saturating_sub(1 + ctx.src.below(0x20_0000)),
        };
        io(f.set_len(cut.min(img.len)));
        ctx.label("image cut");
        ctx.describe(format!("cut at {cut:#x}"));
        for (_, off, len) in &fl {
            if *len > 0 {
                let last = off + *len as u64 - 1;
                let block = base + last / GDATA as u64 * GROUP as u64 + (last % GDATA as u64) / BDATA as u64 * BLOCK as u64;
                // the block that holds the last byte is gone
                must_fail |= block >= cut;
            }
        }
    } else {
        // the declared data size ends inside or before a file
        use std::os::unix::fs::FileExt;
        let (name, off, len) = ctx.src.pick(&fl).clone();
        let size = if ctx.src.bool() { off / BDATA as u64 * BDATA as u64 } else { (off + ctx.src.below(len as u64 + 1)) / 4 * 4 };
        io(f.write_all_at(&((size >> 2) as u32).to_be_bytes(), p.off + 0x2BC));
        ctx.label("declared size shortened");
        ctx.describe(format!("data size {size:#x}, file {name:?} at {off:#x}+{len:#x}"));
        // the reader may serve the rest of the block in which the data ends
        must_fail = fl.iter().any(|(_, o, l)| *l > 0 && o + *l as u64 > al(size, BDATA as u64));
    }
    drop(f);
    let dest = dir.join("out");
    let mut ops = vec![json!(["open", s(&iso)])];
    for n in &names {
        ops.push(json!(["prepare", n]));
    }
    ops.push(json!(["extract", s(&dest), "plain"]));
    let r = py(ctx, Value::Array(ops))?;
    let done = r.iter().all(ok);
    ctx.label(if done { "still complete" } else { "error raised" });
    if done {
        if must_fail {
            return Err("extraction succeeds although the end of a file cannot be read".into());
        }
        for n in &names {
            // the header area is not covered by the shortened size; only files and system areas matter
            check_section(&dest, &img, n, &BTreeSet::new(), &BTreeSet::new())?;
        }
    }
    Ok(())
}

/// output that cannot be stored must raise
fn unwritable(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { max_parts: 1, tree: TreeOpts { max_nodes: 8, max_depth: 3, no_case_collisions: true, big: false }, max_groups: 2, max_contents: 3, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    label_img(ctx, &img);
    let dir = ctx.fresh_dir();
    let iso = dir.join("image.iso");
    io(img.write_file(&iso));
    let names = choose_sections(ctx, &img);
    let p = &img.parts[section_part(&img, &names[0]).unwrap()];
    let dest = dir.join("out");
    let sec = dest.join(names[0].to_ascii_uppercase());
    let want: Vec<(String, Vec<u8>)> = expected(&img, p, &BTreeSet::new()).into_iter().filter(|x| !x.1.is_empty()).collect();
    let (path, _) = ctx.src.pick(&want).clone();
    let f = sec.join(&path);
    io(std::fs::create_dir_all(f.parent().unwrap()));
    let how = ctx.src.below(3);
    match how {
        0 => {
            io(std::os::unix::fs::symlink("/dev/full", &f));
            ctx.label("device full");
        }
        1 => {
            io(std::fs::create_dir(&f));
            ctx.label("a directory is in the way");
        }
        _ => {
            // a file where a directory is needed
            let par = f.parent().unwrap().to_path_buf();
            if par == sec {
                io(std::fs::create_dir(&f));
            } else {
                io(std::fs::remove_dir_all(&par));
                io(std::fs::write(&par, b"x"));
            }
            ctx.label("a file is in the way");
        }
    }
    ctx.describe(format!("{path:?} cannot be written ({how})"));
    let ops = json!([["open", s(&iso)], ["prepare", names[0]], ["extract", s(&dest), "plain"]]);
    let r = py(ctx, ops)?;
    expect_ok(&r[0], "open")?;
    expect_ok(&r[1], "prepare")?;
    if ok(&r[2]) {
        return Err(format!("extraction succeeds although {path:?} cannot be written ({how})"));
    }
    Ok(())
}

pub fn c08() -> Property {
    let mut p = Property::new(
        "C08",
        "a case counts when the image holds at least two files",
        vec![Suite::new("exact", 2_500, 30_000, exact), Suite::new("incomplete", 1_200, 15_000, incomplete), Suite::new("unwritable", 800, 10_000, unwritable)],
    );
    p.address_space = None;
    p.assumptions = &[
        "names are legal on the file system used (no slash, at most 255 bytes); hostile names are C17's",
        "reserved header bytes are zero and nothing follows the NUL of a title",
        "directories without files may or may not be created",
        "a section name denotes the first partition of its type",
    ];
    p
}

// ---------------------------------------------------------------- C09

const TRUE: [&str; 5] = ["true", "one", "str", "list", "obj"];
const FALSE: [&str; 7] = ["false", "none", "zero", "empty", "objfalse", "raise", "objraise"];

fn selective(ctx: &mut Ctx) -> Result<(), String> {
    let max_nodes = if ctx.src.chance(1, 3) { 60 } else { 20 };
    let o = ImgOpts { tree: TreeOpts { max_nodes, max_depth: 4, no_case_collisions: false, big: false }, max_parts: 3, max_groups: 2, max_contents: 4, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    label_img(ctx, &img);
    let dir = ctx.fresh_dir();
    let iso = dir.join("image.iso");
    io(img.write_file(&iso));
    // model: prepared sections in order with the paths removed so far
    let mut prepared: Vec<(String, BTreeSet<String>)> = vec![];
    let mut ops = vec![json!(["open", s(&iso)])];
    enum Want {
        Ok,
        Fails,
        Calls(Vec<String>),
        Hash(String),
        Dir(PathBuf, Vec<(String, BTreeSet<String>)>),
        Print(usize),
    }
    let mut want = vec![Want::Ok];
    let mut dest_no = 0;
    let n = ctx.src.usize(3, 12);
    let mut removed_some = false;
    for step in 0..n {
        let last = step + 1 == n;
        let pick_name = |ctx: &mut Ctx| -> String {
            let sec = match ctx.src.weighted(&[6, 2, 2, 1, 2]) {
                0 => SECTIONS.iter().find(|x| section_part(&img, x).is_some()).unwrap().to_string(),
                1 => "UPDATE".to_string(),
                2 => "CHANNEL".to_string(),
                3 => ctx.src.pick(&["", "DAT", "DATAA", "data ", "GAME", "デ", "Ｄata", "0"]).to_string(),
                _ => "DATA".to_string(),
            };
            some_case_any(&mut ctx.src, &sec)
        };
        let k = if last { 4 } else if step == 0 { 0 } else { ctx.src.weighted(&[4, 6, 2, 1, 1]) };
        match k {
            0 => {
                let name = pick_name(ctx);
                let up = name.to_ascii_uppercase();
                let valid = section_part(&img, &name).is_some() && !prepared.iter().any(|p| p.0 == up);
                ops.push(json!(["prepare", name]));
                if valid {
                    prepared.push((up, BTreeSet::new()));
                    want.push(Want::Ok);
                } else {
                    ctx.label("preparation that must fail");
                    want.push(Want::Fails);
                }
            }
            1 => {
                let name = if !prepared.is_empty() && ctx.src.chance(5, 6) {
                    let i = ctx.src.usize(0, prepared.len() - 1);
                    let n = prepared[i].0.clone();
                    some_case(&mut ctx.src, &n)
                } else {
                    pick_name(ctx)
                };
                let up = name.to_ascii_uppercase();
                let mut table = serde_json::Map::new();
                let default_true = ctx.src.chance(1, 6);
                let default = if default_true { *ctx.src.pick(&TRUE) } else { *ctx.src.pick(&FALSE) };
                if let Some((_, removed)) = prepared.iter_mut().find(|p| p.0 == up) {
                    let p = &img.parts[section_part(&img, &up).unwrap()];
                    let mut calls = vec![];
                    // how many of the files, and of which directories, the callback removes
                    let (num, den) = *ctx.src.pick(&[(1, 3), (1, 3), (1, 3), (9, 10), (1, 12)]);
                    let by_dir = ctx.src.chance(1, 5);
                    let salt = ctx.src.below(1 << 16);
                    for (path, _, _) in listing(p) {
                        if removed.contains(&path) {
                            // would only matter if asked again
                            table.insert(path, json!("raise"));
                            continue;
                        }
                        calls.push(path.clone());
                        let mut remove = default_true;
                        if ctx.src.chance(1, 2) {
                            remove = if by_dir {
                                let d = path.rsplit_once('/').map_or("", |x| x.0);
                                mix(d.bytes().fold(salt, |a, b| mix(a ^ b as u64))) % den < num
                            } else {
                                ctx.src.chance(num, den)
                            };
                            let v = if remove { *ctx.src.pick(&TRUE) } else { *ctx.src.pick(&FALSE) };
                            table.insert(path.clone(), json!(v));
                            ctx.label_if(v == "raise" || v == "objraise", "callback raises");
                        }
                        if remove {
                            removed.insert(path);
                            removed_some = true;
                        }
                    }
                    want.push(Want::Calls(calls));
                } else {
                    ctx.label("filter that must fail");
                    want.push(Want::Fails);
                }
                ops.push(json!(["filter", name, {"default": default, "table": table}]));
            }
            2 => {
                let name = if !prepared.is_empty() && ctx.src.chance(3, 4) {
                    let i = ctx.src.usize(0, prepared.len() - 1);
                    let n = prepared[i].0.clone();
                    some_case(&mut ctx.src, &n)
                } else {
                    pick_name(ctx)
                };
                let up = name.to_ascii_uppercase();
                ops.push(json!(["hash", name]));
                want.push(if prepared.iter().any(|p| p.0 == up) {
                    let p = &img.parts[section_part(&img, &up).unwrap()];
                    Want::Hash(sha(&p.def.dol).iter().map(|b| format!("{b:02x}")).collect())
                } else {
                    Want::Fails
                });
            }
            3 => {
                ops.push(json!(["print"]));
                let left = prepared.iter().map(|(n, r)| listing(&img.parts[section_part(&img, n).unwrap()]).len() - r.len()).sum();
                want.push(Want::Print(left));
            }
            _ => {
                let d = dir.join(format!("out{dest_no}"));
                dest_no += 1;
                ops.push(json!(["extract", s(&d), "plain"]));
                // an extraction uses up what was prepared
                want.push(Want::Dir(d, std::mem::take(&mut prepared)));
            }
        }
    }
    ctx.label_if(removed_some, "files removed");
    if !removed_some {
        ctx.nontrivial = false;
    }
    ctx.describe(ops[1..].iter().map(|o| o.to_string()).collect::<Vec<_>>().join(" "));
    let r = py(ctx, Value::Array(ops.clone()))?;
    for (i, w) in want.iter().enumerate() {
        let (o, x) = (&ops[i], &r[i]);
        match w {
            Want::Ok => expect_ok(x, &o.to_string())?,
            Want::Fails => {
                if ok(x) {
                    return Err(format!("{o} raises nothing"));
                }
                if o[0] == "filter" && x["calls"].as_array().map_or(false, |c| !c.is_empty()) {
                    return Err(format!("{o} fails but the callback was called"));
                }
            }
            Want::Calls(c) => {
                expect_ok(x, &o.to_string())?;
                let mut got: Vec<String> = x["calls"].as_array().unwrap().iter().map(|v| v.as_str().map(|x| x.to_string()).unwrap_or_else(|| v.to_string())).collect();
                let mut c = c.clone();
                got.sort();
                c.sort();
                if got != c {
                    return Err(show("paths the filter was asked about", got, c));
                }
            }
            Want::Hash(h) => {
                expect_ok(x, &o.to_string())?;
                if x["hash"] != json!(h) {
                    return Err(format!("DOL hash {} instead of {h}", x["hash"]));
                }
            }
            Want::Print(_) => expect_ok(x, "test_print")?,
            Want::Dir(d, secs) => {
                expect_ok(x, &o.to_string())?;
                for (n, rem) in secs {
                    check_section(d, &img, n, rem, &BTreeSet::new()).map_err(|e| format!("{e} (files removed: {:?})", rem.iter().take(10).collect::<Vec<_>>()))?;
                }
                only_sections(d, &secs.iter().map(|x| x.0.clone()).collect::<Vec<_>>())?;
            }
        }
    }
    Ok(())
}

fn some_case_any(src: &mut Src, s: &str) -> String {
    s.chars().map(|c| if src.chance(1, 3) { c.to_ascii_lowercase() } else { c }).collect()
}

pub fn c09() -> Property {
    let mut p = Property::new("C09", "a case counts when the image holds at least two files and some filter call removed a file", vec![Suite::new("histories", 7_000, 80_000, selective)]);
    p.address_space = None;
    p.assumptions = &[
        "an extraction uses up the prepared sections: afterwards they count as unprepared",
        "the order in which the callback sees the files is not judged",
        "a section name denotes the first partition of its type",
    ];
    p
}

// ---------------------------------------------------------------- C17

/// levels below the jail at which extraction happens; hostile names climb fewer levels than this
const LEVELS: usize = 16;

fn hostile(src: &mut Src, jail: &Path, climb: &mut usize) -> String {
    let tail = src.pick(&["x", "escaped.bin", "sys", "main.dol", "a.b"]).to_string();
    match src.weighted(&[4, 4, 3, 3, 2, 1, 1]) {
        0 => {
            let n = src.usize(1, 3.min(*climb));
            *climb -= n;
            "../".repeat(n) + &tail
        }
        1 => {
            *climb -= 1;
            "..".into()
        }
        2 => {
            // absolute, into the jail
            format!("{}/{}{}", jail.display(), src.pick(&["", "sub/", "l0/", "l0/l1/"]), tail)
        }
        3 => {
            *climb -= 1;
            format!("{}/{tail}", src.pick(&["sub", "..", "sub/..", "a/b", "./.", "../files", ".", "a/"]))
        }
        4 => ".".into(),
        5 => format!("{tail}{}", src.pick(&["/", "/.", "//", "/./", "/.."])),
        _ => format!("/{}", src.pick(&["vharness-escaped", "", "proc/vharness"])),
    }
}

const DOTTY: [&str; 14] = ["..a", "a..", "...", ".hidden", " ", ". ", ".. ", " ..", "a..b", "a.", "-", "~", "..\\x", ". ."];

fn contained(ctx: &mut Ctx) -> Result<(), String> {
    let jail = ctx.fresh_dir().join("jail");
    io(std::fs::create_dir_all(&jail));
    let hostile_case = ctx.src.chance(3, 4);
    // a small tree with dotted and, perhaps, hostile names
    let o = ImgOpts { tree: TreeOpts { max_nodes: 8, max_depth: 3, no_case_collisions: true, big: false }, max_parts: 1, max_groups: 1, max_contents: 2, ..IMG };
    let mut d = gen_part(&mut ctx.src, &o.tree, 2);
    let mut climb = LEVELS - 2;
    let mut bad: Vec<String> = vec![];
    fn spice(src: &mut Src, t: &mut Vec<Node>, depth: usize) {
        for _ in 0..src.usize(0, 3) {
            let n = src.pick(&DOTTY).to_string();
            if t.iter().any(|x| x.name() == n) {
                continue;
            }
            let data = { let l = src.range(1, 500); gen_blob(src, l) };
            if depth < 2 && src.chance(1, 3) {
                let mut kids = vec![Node::File { name: "k".into(), data, pad: 0 }];
                spice(src, &mut kids, depth + 1);
                t.push(Node::Dir { name: n, kids });
            } else {
                t.push(Node::File { name: n, data, pad: 0 });
            }
        }
    }
    spice(&mut ctx.src, &mut d.tree, 0);
    if hostile_case {
        for _ in 0..ctx.src.usize(1, 3) {
            // into a random directory
            let mut at = &mut d.tree;
            loop {
                let dirs: Vec<usize> = at.iter().enumerate().filter(|x| matches!(x.1, Node::Dir { .. })).map(|x| x.0).collect();
                if dirs.is_empty() || ctx.src.chance(1, 2) {
                    break;
                }
                let i = dirs[ctx.src.usize(0, dirs.len() - 1)];
                match &mut at[i] {
                    Node::Dir { kids, .. } => at = kids,
                    _ => unreachable!(),
                }
            }
            if climb < 4 {
                break;
            }
            let name = hostile(&mut ctx.src, &jail, &mut climb);
            if at.iter().any(|x| x.name() == name) {
                continue;
            }
            bad.push(name.clone());
            let data = { let l = ctx.src.range(0, 200); gen_blob(&mut ctx.src, l) };
            let pos = ctx.src.usize(0, at.len());
            if ctx.src.bool() {
                ctx.label("hostile file name");
                at.insert(pos, Node::File { name, data, pad: 0 });
            } else {
                ctx.label("hostile directory name");
                let mut kids = vec![Node::File { name: ctx.src.pick(&["x", "tmd.bin", "sys"]).to_string(), data, pad: 0 }];
                if ctx.src.chance(1, 3) && climb >= 4 {
                    let n2 = hostile(&mut ctx.src, &jail, &mut climb);
                    bad.push(n2.clone());
                    kids = vec![Node::Dir { name: n2, kids }];
                }
                at.insert(pos, Node::Dir { name, kids });
            }
        }
    }
    let hdr = gen_hdr(&mut ctx.src);
    let part = place(&mut ctx.src, d, &o);
    let img = assemble(&mut ctx.src, hdr, [7; 32], vec![part], &o);
    ctx.describe(format!("hostile names {bad:?}; files {:?}", listing(&img.parts[0]).iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
    // the extraction happens deep inside the jail, by a user who owns nothing else
    let mut at = jail.clone();
    let mut all = vec![jail.clone()];
    for i in 0..LEVELS {
        at = at.join(format!("l{i}"));
        all.push(at.clone());
    }
    let dest = at.join("dest");
    io(std::fs::create_dir_all(&dest));
    all.push(dest.clone());
    io(std::fs::create_dir_all(jail.join("sub")));
    all.push(jail.join("sub"));
    for d in &all {
        for n in ["x", "main.dol", "tmd.bin"] {
            let f = d.join(n);
            io(std::fs::write(&f, b"sentinel"));
            chown(&f, 65534);
        }
        chown(d, 65534);
    }
    let iso = jail.parent().unwrap().join("image.iso");
    io(img.write_file(&iso));
    let before = read_tree(&jail);
    let name = SECTIONS[img.parts[0].def.ptype as usize];
    let ops = json!([["open", s(&iso)], ["prepare", name], ["extract", s(&dest), "plain"]]);
    let r = py_unpriv(ctx, ops)?;
    expect_ok(&r[0], "open")?;
    expect_ok(&r[1], "prepare")?;
    // everything outside the section folder is as before
    let sec = dest.join(name);
    let inside = sec.strip_prefix(&jail).unwrap().to_str().unwrap().to_string();
    let mut after = read_tree(&jail);
    let out = |k: &String| !(k == &inside || k.starts_with(&format!("{inside}/")));
    after.0.retain(|k, _| out(k));
    after.1.retain(out);
    same_files("outside the section folder", &after.0, &before.0)?;
    if after.1 != before.1 {
        return Err(format!("directories created outside the section folder: {:?}", after.1.difference(&before.1).collect::<Vec<_>>()));
    }
    if bad.is_empty() {
        ctx.label("only benign names");
        ctx.nontrivial();
        expect_ok(&r[2], "extraction of harmless names")?;
        check_section(&dest, &img, name, &BTreeSet::new(), &BTreeSet::new())?;
    } else {
        ctx.nontrivial();
        if ok(&r[2]) {
            return Err(format!("extraction of the names {bad:?} raises nothing"));
        }
    }
    Ok(())
}

pub fn c17() -> Property {
    let mut p = Property::new("C17", "every case counts: it has hostile names, or harmless names with dots and blanks that must be extracted", vec![Suite::new("names", 8_000, 60_000, contained)]);
    p.address_space = None;
    p.assumptions = &[
        "the extraction runs as user 65534 in a scratch directory; names that lead to system paths can only fail there, and climbing names stay inside the scratch directory",
        "only file-system effects below the scratch directory are compared",
        "the destination contains no symbolic links",
    ];
    p
}

// ---------------------------------------------------------------- C19

fn strip_dir(f: &Files) -> Result<Files, String> {
    let mut m = f.clone();
    m.remove("sys/fst.bin");
    for k in ["sys/boot.bin", "disc/header.bin"] {
        if let Some(b) = m.get_mut(k) {
            if b.len() < 0x430 {
                return Err(format!("{k} has {:#x} bytes", b.len()));
            }
            // offsets and sizes of the executable and the file table
            b[0x420..0x430].fill(0);
        }
    }
    if let Some(t) = m.get_mut("tmd.bin") {
        *t = RTmd::decode(t)?.normalised().encode();
    }
    Ok(m)
}

fn fixpoint(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { tree: TreeOpts { max_nodes: 16, max_depth: 4, no_case_collisions: true, big: true }, max_parts: 2, max_groups: 4, max_contents: 30, giant: ctx.src.chance(1, 10), ..IMG };
    let n = ctx.src.usize(1, 2);
    let mut hdr = gen_hdr(&mut ctx.src);
    hdr.no_enc = 0;
    hdr.no_hash = 0;
    let region = ctx.src.arr();
    let mut parts = vec![];
    let data_at = ctx.src.usize(0, n - 1);
    for i in 0..n {
        let mut d = gen_part(&mut ctx.src, &o.tree, o.max_contents);
        if i == data_at {
            d.ptype = 0;
            if ctx.src.chance(1, 3) {
                aim(&mut ctx.src, &mut d, 4);
            }
            // on a disc, the partition's header repeats the disc's
            d.hdr = hdr.clone();
        } else if d.ptype == 0 {
            d.ptype = 1;
        }
        parts.push(place(&mut ctx.src, d, &o));
    }
    let p0 = &parts[data_at].hdr;
    hdr.dol_off = p0.dol_off;
    hdr.fst_off = p0.fst_off;
    hdr.fst_sz = p0.fst_sz;
    hdr.fst_max = p0.fst_max;
    let img = assemble(&mut ctx.src, hdr, region, parts, &o);
    label_img(ctx, &img);
    if section_part(&img, "DATA").is_none() {
        // placed beyond what the partition table can express, so the generator left it out
        ctx.label("DATA partition left out");
        return Ok(());
    }
    let dir = ctx.fresh_dir();
    // from the second repack on the images repeat: the first one's disc header still has the offsets of the source
    const N: usize = 4;
    let iso: Vec<PathBuf> = (0..N).map(|i| dir.join(format!("i{i}.iso"))).collect();
    let out: Vec<PathBuf> = (0..N).map(|i| dir.join(format!("d{i}"))).collect();
    io(img.write_file(&iso[0]));
    let mut ops = vec![];
    for i in 0..N {
        ops.push(json!(["open", s(&iso[i])]));
        ops.push(json!(["prepare", "DATA"]));
        ops.push(json!(["extract", s(&out[i]), "plain"]));
        ops.push(json!(["drop"]));
        if i + 1 < N {
            if ctx.src.chance(1, 4) {
                // an earlier, larger file of that name
                io(std::fs::write(&iso[i + 1], vec![0xAB; ctx.src.usize(1, 0x700000)]));
                ctx.label("rebuilt over an existing file");
            }
            ops.push(json!(["rebuild", s(&out[i]), s(&iso[i + 1]), "plain"]));
        }
    }
    let r = py(ctx, Value::Array(ops.clone()))?;
    for (o, x) in ops.iter().zip(&r) {
        expect_ok(x, &o.to_string())?;
    }
    let t: Vec<Files> = out.iter().map(|d| read_tree(d).0).collect();
    let sub = |f: &Files| -> Files { f.iter().map(|(k, v)| (k.strip_prefix("DATA/").unwrap_or(k).to_string(), v.clone())).collect() };
    same_files("after one extraction", &sub(&t[0]), &expected(&img, &img.parts[section_part(&img, "DATA").unwrap()], &BTreeSet::new()))?;
    same_files("after the first repack", &strip_dir(&sub(&t[1]))?, &strip_dir(&sub(&t[0]))?)?;
    let no_off = |f: &Files| -> Files {
        let mut f = f.clone();
        if let Some(h) = f.get_mut("DATA/disc/header.bin") {
            h[0x420..0x430].fill(0);
        }
        f
    };
    same_files("after the second repack", &no_off(&t[2]), &no_off(&t[1]))?;
    same_files("after the third repack", &t[3], &t[2])?;
    let (mut a, b, c) = (io(std::fs::read(&iso[1])), io(std::fs::read(&iso[2])), io(std::fs::read(&iso[3])));
    if a.len() >= 0x430 && b.len() >= 0x430 {
        a[0x420..0x430].copy_from_slice(&b[0x420..0x430]);
    }
    short_diff("image of the second repack against the first (apart from the disc header's offsets)", &b, &a)?;
    short_diff("image of the third repack against the second", &c, &b)
}

pub fn c19() -> Property {
    let mut p = Property::new("C19", "a case counts when the image holds at least two files", vec![Suite::new("fixpoint", 2_400, 20_000, fixpoint)]);
    p.address_space = None;
    p.assumptions = &[
        "the partition's boot header repeats the disc header, as on real discs, and the disable flags are clear",
        "siblings do not collide ignoring case; directories without files are not extracted and so not repacked",
    ];
    p
}
