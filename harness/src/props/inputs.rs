//! C20: commands change nothing but the output they are given.
use super::dirs::*;
use super::extract::*;
use crate::engine::*;
use crate::model::*;
use crate::pyworker::*;
use crate::refimage::*;
use crate::wiiref::sha;
use disc_riider::builder::{build_copy, build_from_directory};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const USER: u32 = 65534;

/// kind, mode, owner, modification time (of inputs) and content of everything below a directory
type Snap = BTreeMap<String, (u32, u32, i64, Vec<u8>)>;

fn snap(root: &Path) -> Snap {
    fn rec(p: &Path, rel: &str, out: &mut Snap) {
        let m = io(std::fs::symlink_metadata(p));
        let input = rel.starts_with("/in") || rel.starts_with("/cwd");
        let time = if input { m.mtime() * 1_000_000_000 + m.mtime_nsec() } else { 0 };
        let content = if m.is_file() {
            sha(&io(std::fs::read(p))).to_vec()
        } else if m.is_symlink() {
            io(std::fs::read_link(p)).to_string_lossy().into_owned().into_bytes()
        } else {
            vec![]
        };
        out.insert(rel.to_string(), (m.mode(), m.uid(), time, content));
        if m.is_dir() {
            for e in io(std::fs::read_dir(p)) {
                let e = io(e);
                rec(&e.path(), &format!("{rel}/{}", e.file_name().to_string_lossy()), out);
            }
        }
    }
    let mut s = Snap::new();
    rec(root, "", &mut s);
    s
}

fn changes(a: &Snap, b: &Snap) -> Vec<String> {
    let mut v: Vec<String> = a.iter().filter(|(k, x)| b.get(*k) != Some(x)).map(|(k, _)| k.clone()).collect();
    v.extend(b.keys().filter(|k| !a.contains_key(*k)).cloned());
    v
}

/// everything below becomes unwritable for the user (but readable)
fn lock(p: &Path) {
    let m = io(std::fs::symlink_metadata(p));
    if m.is_symlink() {
        return;
    }
    if m.is_dir() {
        for e in io(std::fs::read_dir(p)) {
            lock(&io(e).path());
        }
    }
    io(std::fs::set_permissions(p, std::fs::Permissions::from_mode(if m.is_dir() { 0o555 } else { 0o444 })));
}

fn hand_over(p: &Path) {
    chown(p, USER);
    if io(std::fs::symlink_metadata(p)).is_dir() {
        for e in io(std::fs::read_dir(p)) {
            hand_over(&io(e).path());
        }
    }
}

/// runs `f` with the file-system rights of the user
fn as_user<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            unsafe {
                libc::setfsuid(0);
                libc::setfsgid(0);
            }
        }
    }
    let _b = Back;
    unsafe {
        libc::setfsgid(USER);
        libc::setfsuid(USER);
    }
    f()
}

fn tool(ctx: &mut Ctx, cwd: &Path, args: &[String]) -> Result<(bool, String), String> {
    let d = ctx.scratch.join("unpriv");
    let bin = d.join("iso-tool");
    if !bin.exists() {
        io(std::fs::create_dir_all(&d));
        io(std::fs::copy(&ctx.env.iso_tool, &bin));
    }
    let mut tries = 0;
    let o = loop {
        match Command::new(&bin).args(args).stdin(Stdio::null()).env("LC_ALL", "C.UTF-8").current_dir(cwd).uid(USER).gid(USER).output() {
            Ok(o) => break o,
            // a process that another thread was about to start still had the fresh copy open for writing
            Err(e) if e.raw_os_error() == Some(libc::ETXTBSY) && tries < 500 => {
                tries += 1;
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
            Err(e) => return Err(format!("HARNESS: cannot run iso-tool: {e}")),
        }
    };
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.code().is_none() || o.status.code() == Some(101) {
        return Err(format!("iso-tool {args:?} crashes ({:?}): {err}", o.status));
    }
    Ok((o.status.success(), err))
}

fn untouched(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { tree: TreeOpts { max_nodes: 10, max_depth: 3, no_case_collisions: true, big: false }, max_parts: 2, max_groups: 2, max_contents: 3, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    let def = gen_dir(ctx, &TreeOpts { max_nodes: 10, max_depth: 3, no_case_collisions: true, big: false });
    let dir = ctx.fresh_dir();
    let (inp, cwd, out) = (dir.join("in"), dir.join("cwd"), dir.join("out"));
    for d in [&inp, &cwd, &out] {
        io(std::fs::create_dir_all(d));
    }
    let iso = inp.join("image.iso");
    io(img.write_file(&iso));
    write_dir(&inp.join("good"), &def, 0);
    write_dir(&inp.join("bad"), &def, 0);
    // one part of this directory is missing or broken
    let victim = *ctx.src.pick(&["sys/boot.bin", "sys/bi2.bin", "sys/apploader.img", "sys/main.dol", "disc/region.bin", "ticket.bin", "tmd.bin", "cert.bin"]);
    io(std::fs::remove_file(inp.join("bad/DATA").join(victim)));
    for d in [&inp, &cwd, &out] {
        for n in ["note.txt", "main.dol", "image.iso.bak"] {
            io(std::fs::write(d.join(n), format!("bystander {n}")));
        }
    }
    // files whose names are derived from the outputs, and strangers in the folders that are written
    for stem in ["new", "old"] {
        for ext in [".bak", ".tmp", ".log", ".iso.bak", ".iso.tmp", ".iso.part", ".iso~"] {
            if ctx.src.chance(1, 4) {
                io(std::fs::write(out.join(format!("{stem}{ext}")), format!("bystander {stem}{ext}")));
            }
        }
    }
    if ctx.src.bool() {
        for d in [&cwd, &out] {
            io(std::fs::create_dir_all(d.join("sys/sub")));
            for n in ["sys/other.bin", "sys/boot.bin.bak", "sys/sub/x", "files", "disc"] {
                io(std::fs::write(d.join(n), format!("bystander {n}")));
            }
        }
        ctx.label("strangers in the sys folder");
    }
    hand_over(&cwd);
    hand_over(&out);
    io(std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755)));
    let locked = ctx.src.bool();
    if locked {
        // the inputs do not belong to the user; the scratch directory itself is not writable for him either
        lock(&inp);
        ctx.label("read-only inputs");
    } else {
        hand_over(&inp);
        chown(&dir, USER);
        ctx.label("writable inputs");
    }
    // paths for the tool: absolute, or relative to the working directory
    let relative = ctx.src.bool();
    let present: Vec<&str> = SECTIONS.iter().copied().filter(|n| section_part(&img, n).is_some()).collect();
    let n = ctx.src.usize(1, 4);
    let mut log: Vec<String> = vec![];
    let mut before = snap(&dir);
    let p = |x: &Path| x.to_str().unwrap().to_string();
    let tp = |x: &Path| if relative { format!("../{}", x.strip_prefix(&dir).unwrap().to_str().unwrap()) } else { p(x) };
    for step in 0..n {
        let sec = if ctx.src.chance(5, 6) { *ctx.src.pick(&present) } else { *ctx.src.pick(&["DATA", "UPDATE", "CHANNEL", "NONE"]) };
        let good_sec = present.contains(&sec);
        let good_dir = ctx.src.chance(3, 4);
        let source = inp.join(if good_dir { "good" } else { "bad" });
        let dest = if ctx.src.bool() { out.join(format!("d{step}")) } else { out.clone() };
        let file = out.join(*ctx.src.pick(&["new.iso", "old.iso"]));
        // what may change, and whether it has to succeed
        let mut tree: Option<PathBuf> = None;
        let mut files: Vec<PathBuf> = vec![];
        let (what, done, must, msg): (&'static str, bool, bool, String) = match ctx.src.below(8) {
            0 => {
                let (ok, e) = tool(ctx, &cwd, &["sections".into(), tp(&iso)])?;
                ("iso-tool sections", ok, true, e)
            }
            1 => {
                let (ok, e) = tool(ctx, &cwd, &["print-files".into(), tp(&iso), format!("--section={sec}")])?;
                ("iso-tool print-files", ok, good_sec, e)
            }
            2 => {
                let (ok, e) = tool(ctx, &cwd, &["extract-sys".into(), tp(&iso), tp(&dest), format!("--section={sec}")])?;
                files.push(dest.clone());
                files.push(dest.join("sys"));
                files.extend(["boot.bin", "bi2.bin", "apploader.img", "main.dol", "fst.bin"].iter().map(|f| dest.join("sys").join(f)));
                ("iso-tool extract-sys", ok, good_sec, e)
            }
            3 => {
                let (ok, e) = tool(ctx, &cwd, &["rebuild".into(), tp(&source), tp(&file)])?;
                files.push(file.clone());
                ("iso-tool rebuild", ok, good_dir, e)
            }
            4 | 5 => {
                let ops = json!([["open", p(&iso)], ["prepare", sec], ["hash", sec], ["filter", sec, {"default": if ctx.src.chance(1, 3) { "true" } else { "false" }}], ["print"], ["extract", p(&dest), "plain"]]);
                let r = py_unpriv(ctx, ops)?;
                tree = Some(dest.join(sec));
                files.push(dest.clone());
                let bad: Vec<&Value> = r.iter().filter(|x| !ok(x)).collect();
                ("Python extraction", bad.is_empty(), good_sec, format!("{bad:?}"))
            }
            6 => {
                let r = py_unpriv(ctx, json!([["rebuild", p(&source), p(&file), "plain"]]))?;
                files.push(file.clone());
                ("Python rebuild", ok(&r[0]), good_dir, r[0].to_string())
            }
            _ => {
                if ctx.src.bool() {
                    let r = as_user(|| build_from_directory(&source, &mut std::io::Cursor::new(vec![]), &mut |_| {}));
                    ("build_from_directory", r.is_ok(), good_dir, format!("{:?}", r.err()))
                } else {
                    // the destination has to exist
                    if !file.exists() {
                        io(std::fs::write(&file, b"old"));
                        chown(&file, USER);
                        before = snap(&dir);
                    }
                    let r = as_user(|| build_copy(&iso, &file));
                    files.push(file.clone());
                    ("build_copy", r.is_ok(), present.contains(&"DATA"), format!("{:?}", r.err()))
                }
            }
        };
        log.push(format!("{what} (section {sec}, source {}, to {})", source.file_name().unwrap().to_string_lossy(), dest.file_name().unwrap().to_string_lossy()));
        ctx.label(what);
        ctx.label_if(!must, "with an input that has to be refused");
        let after = snap(&dir);
        let rel = |x: &Path| format!("/{}", x.strip_prefix(&dir).unwrap().to_str().unwrap());
        let below = tree.as_ref().map(|t| rel(t));
        let files: Vec<String> = files.iter().map(|f| rel(f)).collect();
        for c in changes(&before, &after) {
            let fine = files.contains(&c) || below.as_ref().map_or(false, |b| c == *b || c.starts_with(&format!("{b}/")));
            if !fine {
                return Err(format!("{what} changed {c}: {:?} instead of {:?} (history {})", after.get(&c).map(|x| (x.0, x.1, x.2)), before.get(&c).map(|x| (x.0, x.1, x.2)), log.join(", ")));
            }
        }
        if must && !done {
            return Err(format!("{what} fails although its inputs are complete and readable: {msg} (history {})", log.join(", ")));
        }
        if !must && done {
            return Err(format!("{what} succeeds although it has to be refused (history {}; {victim} is missing in bad)", log.join(", ")));
        }
        before = after;
    }
    ctx.describe(log.join(", "));
    if n > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

pub fn c20() -> Property {
    let mut p = Property::new(
        "C20",
        "one case = a history of 1 to 4 commands (tool, Python module, library) on generated inputs, as a user who may only read the inputs, or who owns them, with a snapshot of the whole scratch directory (names, kinds, modes, contents, and modification times of the inputs and the working directory) after each; non-trivial = at least two commands",
        vec![Suite::new("untouched", 1500, 15_000, untouched)],
    );
    p.address_space = None;
    p.assumptions = &["inputs and outputs are different files", "effects outside the scratch directory are only ruled out by the rights of user 65534"];
    p
}
