//! C15 progress reports and C16 the command-line tool.
use super::dirs::*;
use super::extract::*;
use super::malformed::{mutate, Lab};
use crate::blob::Blob;
use crate::engine::*;
use crate::model::*;
use crate::pyworker::*;
use crate::refimage::*;
use crate::sut::*;
use crate::wiiref::*;
use disc_riider::builder::{build_from_directory, WiiDiscBuilder};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::Cursor;
use std::path::Path;
use std::process::{Command, Stdio};

// ---------------------------------------------------------------- C15

/// one monotone run from 0 to 100
fn judge(what: &str, seq: &[i64], must_end: bool) -> Result<(), String> {
    let show = || format!("{:?}{}", &seq[..seq.len().min(40)], if seq.len() > 40 { format!(" ... {:?}", &seq[seq.len() - 5..]) } else { String::new() });
    if seq.first() != Some(&0) {
        return Err(format!("{what}: the first report is not 0: {}", show()));
    }
    if let Some(v) = seq.iter().find(|v| **v > 100 || **v < 0) {
        return Err(format!("{what}: report of {v}: {}", show()));
    }
    if let Some(w) = seq.windows(2).find(|w| w[1] < w[0]) {
        return Err(format!("{what}: {} follows {}: {}", w[1], w[0], show()));
    }
    if must_end && seq.last() != Some(&100) {
        return Err(format!("{what}: the last report is not 100: {}", show()));
    }
    Ok(())
}

fn ints(v: &Value) -> Result<Vec<i64>, String> {
    v.as_array().ok_or("no progress list")?.iter().map(|x| x.as_i64().ok_or_else(|| format!("the callback was called with {x}"))).collect()
}

fn dir_case(ctx: &mut Ctx) -> DirDef {
    let big = ctx.src.chance(1, 6);
    let o = TreeOpts { max_nodes: 30, max_depth: 4, no_case_collisions: true, big };
    let mut d = gen_dir(ctx, &o);
    match ctx.src.weighted(&[8, 1, 1, 1]) {
        0 => {}
        1 => {
            // only empty files
            fn empty(t: &mut [Node]) {
                for n in t {
                    match n {
                        Node::File { data, .. } => data.len = 0,
                        Node::Dir { kids, .. } => empty(kids),
                    }
                }
            }
            empty(&mut d.def.tree);
            ctx.label("only empty files");
        }
        2 => {
            // more files than percent steps
            let n = ctx.src.usize(101, 320);
            let step = ctx.src.below(3);
            d.def.tree = (0..n).map(|i| Node::File { name: format!("f{i:04}"), data: Blob::new(step * (i as u64 % 7), 0, i as u64), pad: 0 }).collect();
            ctx.label("more than 100 files");
        }
        _ => {
            // written in several pieces
            let len = (16u64 << 20) + ctx.src.below(1 << 20);
            d.def.tree.retain(|n| lower(n.name()) != b"movie");
            d.def.tree.push(Node::File { name: "movie".into(), data: Blob::new(len, 1, 5), pad: 0 });
            sort_tree(&mut d.def.tree);
            ctx.label("file above 16 MiB");
        }
    }
    let (f, _) = count(&d.def.tree);
    ctx.label_if(f == 0, "no files");
    if f >= 2 {
        ctx.nontrivial();
    }
    d
}

fn lib_progress(ctx: &mut Ctx) -> Result<(), String> {
    let d = dir_case(ctx);
    let dir = ctx.fresh_dir();
    write_dir(&dir, &d, 0);
    let mut seq = vec![];
    let mut cur = Cursor::new(vec![]);
    build_from_directory(&dir, &mut cur, &mut |p| seq.push(p as i64)).map_err(|e| format!("build_from_directory failed: {e}"))?;
    let (f, _) = count(&d.def.tree);
    judge("build_from_directory", &seq, f > 0)?;
    // the builder itself, with known and with unknown sizes
    let lens = if ctx.src.bool() { Lens::Real } else { Lens::Zero };
    let mut seq = vec![];
    let mut b = WiiDiscBuilder::create(Cursor::new(vec![]), lib_hdr(&d.def.hdr), d.region);
    let mut def = Def::new(&d.def);
    def.lens = lens;
    add(&mut b, &mut def, &mut |p| seq.push(p as i64)).map_err(|e| format!("add_partition failed: {e}"))?;
    judge(&format!("add_partition with {lens:?} lengths"), &seq, f > 0)
}

fn py_rebuild(ctx: &mut Ctx) -> Result<(), String> {
    let d = dir_case(ctx);
    let dir = ctx.fresh_dir();
    write_dir(&dir, &d, 0);
    let (f, _) = count(&d.def.tree);
    let want = build_dir(&dir).map_err(|e| format!("build_from_directory failed: {e}"))?;
    let mode = *ctx.src.pick(&["plain", "raise", "raise-odd", "return"]);
    ctx.label(if mode.starts_with("raise") { "callback raises" } else { "callback returns" });
    let iso = dir.join("out.iso");
    let r = py(ctx, json!([["rebuild", dir.to_str().unwrap(), iso.to_str().unwrap(), mode]]))?;
    expect_ok(&r[0], "rebuild_from_directory")?;
    judge(&format!("rebuild_from_directory ({mode})"), &ints(&r[0]["prog"])?, f > 0)?;
    let got = io(std::fs::read(&iso));
    short_diff(&format!("image rebuilt with a callback of kind {mode}"), &got, &want)?;
    if ctx.src.chance(1, 2) {
        // the tool prints the same kind of sequence
        ctx.label("tool");
        let o = run_tool(ctx.env, &["rebuild", dir.to_str().unwrap(), dir.join("tool.iso").to_str().unwrap()])?;
        if o.code != Some(0) {
            return Err(format!("iso-tool rebuild fails: {}", o.err));
        }
        judge("iso-tool rebuild", &percents(&o.out)?, f > 0)?;
    }
    Ok(())
}

fn percents(out: &str) -> Result<Vec<i64>, String> {
    out.lines()
        .filter(|l| l.trim_end().ends_with('%'))
        .map(|l| {
            let t = l.trim_end().trim_end_matches('%');
            let n = t.rsplit(|c: char| c != '-' && !c.is_ascii_digit()).next().unwrap_or("");
            n.parse().map_err(|_| format!("progress line {l:?}"))
        })
        .collect()
}

fn py_extract(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { tree: TreeOpts { max_nodes: 24, max_depth: 4, no_case_collisions: false, big: true }, max_parts: 3, max_groups: 3, max_contents: 2, unique_types: true, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    ctx.describe(img.describe());
    let dir = ctx.fresh_dir();
    let iso = dir.join("image.iso");
    io(img.write_file(&iso));
    let mut names: Vec<&str> = img.parts.iter().map(|p| SECTIONS[p.def.ptype as usize]).collect();
    if ctx.src.chance(1, 2) {
        names.truncate(1);
    }
    let mode = *ctx.src.pick(&["plain", "raise", "raise-odd", "return"]);
    ctx.label(if mode.starts_with("raise") { "callback raises" } else { "callback returns" });
    let dest = dir.join("out");
    let mut ops = vec![json!(["open", iso.to_str().unwrap()])];
    let mut sums = vec![];
    let mut removed: Vec<BTreeSet<String>> = vec![];
    for n in &names {
        ops.push(json!(["prepare", n]));
        let p = &img.parts[section_part(&img, n).unwrap()];
        let mut rem = BTreeSet::new();
        let mut table = serde_json::Map::new();
        let mut sum = 0u64;
        let filter = ctx.src.chance(1, 3);
        for (path, _, len) in listing(p) {
            if filter && ctx.src.chance(1, 3) {
                table.insert(path.clone(), json!("true"));
                rem.insert(path);
            } else {
                sum += len as u64;
            }
        }
        if filter {
            ctx.label("files filtered out");
            ops.push(json!(["filter", n, {"default": "false", "table": table}]));
        }
        sums.push(sum);
        removed.push(rem);
    }
    ops.push(json!(["extract", dest.to_str().unwrap(), mode]));
    let r = py(ctx, Value::Array(ops.clone()))?;
    for (o, x) in ops.iter().zip(&r) {
        expect_ok(x, &o.to_string())?;
    }
    let seq = ints(&r.last().unwrap()["prog"])?;
    let busy = sums.iter().filter(|s| **s > 0).count();
    ctx.label_if(busy > 1, "several sections with data");
    ctx.label_if(busy == 0, "nothing to process");
    if busy > 0 {
        ctx.nontrivial();
    }
    if names.len() == 1 {
        judge("extract_to", &seq, busy > 0)?;
    } else {
        // sections follow one another; a smaller value can only start the next section
        if seq.first() != Some(&0) {
            return Err(format!("the first report is not 0: {seq:?}"));
        }
        let mut runs: Vec<Vec<i64>> = vec![vec![]];
        let mut prev = 0;
        for v in &seq {
            if *v < prev {
                runs.push(vec![]);
            }
            prev = *v;
            runs.last_mut().unwrap().push(*v);
        }
        let n = runs.len();
        if n > busy.max(1) + names.len() {
            return Err(format!("{n} rising sequences for {} sections: {seq:?}", names.len()));
        }
        for run in &runs {
            // a section may or may not begin with a report of 0
            let mut r = vec![0];
            r.extend(run.iter().skip_while(|v| **v == 0));
            if r.len() > 1 {
                judge("one section of extract_to", &r, true)?;
            }
        }
        if busy > 0 && !seq.contains(&100) {
            return Err(format!("100 is never reported: {seq:?}"));
        }
    }
    for (n, rem) in names.iter().zip(&removed) {
        check_section(&dest, &img, n, rem, &BTreeSet::new()).map_err(|e| format!("with a callback of kind {mode}: {e}"))?;
    }
    Ok(())
}

/// a directory of zero files with `total` bytes
fn large_dir(ctx: &mut Ctx, total: u64) -> DirDef {
    let o = TreeOpts { max_nodes: 6, max_depth: 3, no_case_collisions: true, big: false };
    let mut d = gen_dir(ctx, &o);
    let n = ctx.src.usize(1, 40) as u64;
    let n = n.max(total >> 28);
    for i in 0..n {
        let len = total / n + if i == 0 { total % n } else { 0 };
        let f = Node::File { name: format!("zz-{i:03}"), data: Blob::new(len, 1, i), pad: 0 };
        d.def.tree.push(f);
    }
    sort_tree(&mut d.def.tree);
    d.def.tree.dedup_by(|a, b| lower(a.name()) == lower(b.name()));
    ctx.describe(format!("{n} files with {total:#x} bytes together"));
    ctx.nontrivial();
    d
}

fn large_progress(ctx: &mut Ctx, total: u64) -> Result<(), String> {
    let d = large_dir(ctx, total);
    let dir = ctx.fresh_dir();
    write_dir(&dir, &d, 0);
    let mut seq = vec![];
    let mut st = crate::io::DedupStore::new(0x70000);
    build_from_directory(&dir, &mut st, &mut |p| seq.push(p as i64)).map_err(|e| format!("build_from_directory failed: {e}"))?;
    judge("build_from_directory", &seq, true)
}

fn lib_large(ctx: &mut Ctx) -> Result<(), String> {
    let total = (40 << 20) + ctx.src.below(260 << 20);
    large_progress(ctx, total)
}

fn lib_giant(ctx: &mut Ctx) -> Result<(), String> {
    ctx.label("more than 4 GiB");
    large_progress(ctx, (4 << 30) + (180 << 20) + 12345)
}

/// many bytes to extract: the files share their data in the image
fn large_extract(ctx: &mut Ctx, total: u64, huge: bool, dest: &Path) -> Result<(), String> {
    let each = (4u64 << 20) + ctx.src.below(4 << 20);
    let n = total / each + 1;
    let o = ImgOpts { max_groups: 8, wild: false, share: true, huge, ..IMG };
    let mut d = gen_part(&mut ctx.src, &TreeOpts { max_nodes: 1, ..o.tree }, 2);
    d.ptype = 0;
    d.tree = (0..n).map(|i| Node::File { name: format!("f{i:05}"), data: Blob::new(each, 0, 1), pad: 0 }).collect();
    let part = place(&mut ctx.src, d, &o);
    let hdr = gen_hdr(&mut ctx.src);
    let img = assemble(&mut ctx.src, hdr, [0; 32], vec![part], &o);
    let lens: Vec<u64> = flat(&img.parts[0].fst).iter().map(|f| f.2 as u64).collect();
    ctx.describe(format!("{n} files of {each:#x} bytes, the largest has {:#x}", lens.iter().max().unwrap()));
    ctx.nontrivial();
    let dir = ctx.fresh_dir();
    let iso = dir.join("image.iso");
    io(img.write_file(&iso));
    let r = py(ctx, json!([["open", iso.to_str().unwrap()], ["prepare", "data"], ["extract", dest.to_str().unwrap(), "plain"]]))?;
    for x in &r {
        expect_ok(x, "extraction")?;
    }
    judge("extract_to", &ints(&r[2]["prog"])?, true)?;
    for (i, len) in lens.iter().enumerate() {
        let f = dest.join(format!("DATA/files/f{i:05}"));
        let got = io(std::fs::metadata(&f)).len();
        if got != *len {
            return Err(format!("file {i} has {got:#x} bytes instead of {len:#x}"));
        }
        if i as u64 + 2 >= n && *len == each {
            short_diff("a file at the end", &io(std::fs::read(&f)), &Blob::new(each, 0, 1).to_vec())?;
        }
    }
    Ok(())
}

fn py_large(ctx: &mut Ctx) -> Result<(), String> {
    let total = (36 << 20) + ctx.src.below(80 << 20);
    let dest = ctx.scratch.join("large-out");
    let r = large_extract(ctx, total, false, &dest);
    let _ = std::fs::remove_dir_all(&dest);
    r
}

fn py_giant(ctx: &mut Ctx) -> Result<(), String> {
    let base = std::env::temp_dir();
    if free_bytes(&base) < 12 << 30 {
        ctx.label("not enough room on the disk");
        return Ok(());
    }
    ctx.label("more than 4 GiB");
    let dest = base.join(format!("vharness-{}-large", std::process::id()));
    let r = large_extract(ctx, (2 << 30) + (150 << 20), true, &dest);
    let _ = std::fs::remove_dir_all(&dest);
    r
}

pub fn c15() -> Property {
    let mut p = Property::new(
        "C15",
        "a case counts when there are at least two files to rebuild or at least one byte to extract",
        vec![
            Suite::new("library", 1_200, 8_000, lib_progress),
            Suite::new("python-rebuild", 700, 6_000, py_rebuild),
            Suite::new("python-extract", 900, 30_000, py_extract),
            Suite::new("library-large", 10, 150, lib_large),
            Suite::new("python-large", 8, 100, py_large),
            Suite::enumerate("library-giant", 1, lib_giant),
            Suite::enumerate("python-giant", 1, py_giant),
        ],
    );
    p.assumptions = &[
        "when several sections are extracted at once, a section may or may not begin with its own report of 0",
        "the tool's progress lines end with a percent sign",
    ];
    p.address_space = None;
    p
}

// ---------------------------------------------------------------- C11, the command-line tool and the Python module

/// storage that runs full at a generated point
pub fn storage(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { tree: TreeOpts { max_nodes: 8, max_depth: 3, no_case_collisions: true, big: ctx.src.chance(1, 4) }, max_parts: 1, max_groups: 2, max_contents: 2, ..IMG };
    let dir = ctx.fresh_dir();
    ctx.nontrivial();
    if ctx.src.bool() {
        // a rebuild, by the tool and by the Python module
        let d = gen_dir(ctx, &o.tree);
        let sdir = dir.join("src");
        write_dir(&sdir, &d, 0);
        let want = build_dir(&sdir).map_err(|e| format!("build_from_directory failed: {e}"))?;
        let size = want.len() as u64;
        for round in 0..3 {
            let limit = match ctx.src.below(4) {
                0 => ctx.src.below(size),
                1 => size - 1 - ctx.src.below(0x200),
                2 => *ctx.src.pick(&[0u64, 1, 0x440, 0x40000, 0x40020, 0x4E000, 0x50000, 0x50000 + 0x2C0, 0x70000 - 1, 0x70000, 0x70000 + 0x200000 - 1]).min(&(size - 1)),
                _ => size + ctx.src.below(2),
            };
            ctx.describe(format!("image of {size:#x} bytes, limit {limit:#x}"));
            ctx.subcases += 2;
            let a = dir.join(format!("t{round}.iso"));
            let t = run_tool_limited(ctx.env, &["rebuild", sdir.to_str().unwrap(), a.to_str().unwrap()], Some(limit))?;
            let b = dir.join(format!("p{round}.iso"));
            let r = py(ctx, json!([["limit", limit], ["rebuild", sdir.to_str().unwrap(), b.to_str().unwrap(), "plain"]]))?;
            expect_ok(&r[0], "HARNESS: limit")?;
            for (who, good, f) in [("iso-tool", t.code == Some(0), &a), ("the Python module", ok(&r[1]), &b)] {
                if limit < size {
                    ctx.label("storage full while rebuilding");
                    if good {
                        return Err(format!("{who} reports success for an image of {size:#x} bytes on storage that ends at {limit:#x}"));
                    }
                } else {
                    ctx.label("just enough storage");
                    if !good {
                        return Err(format!("{who} fails although the image of {size:#x} bytes fits into {limit:#x}"));
                    }
                    short_diff(who, &io(std::fs::read(f)), &want)?;
                }
            }
        }
        return Ok(());
    }
    let img = gen_image(&mut ctx.src, &o);
    let iso = dir.join("image.iso");
    io(img.write_file(&iso));
    let p = &img.parts[0];
    let name = SECTIONS[p.def.ptype as usize];
    let want = expected(&img, p, &Default::default());
    let need = want.values().map(|v| v.len() as u64).max().unwrap();
    let sys = want.iter().filter(|x| x.0.starts_with("sys/")).map(|x| x.1.len() as u64).max().unwrap();
    for round in 0..3 {
        let sizes: Vec<u64> = want.values().map(|v| v.len() as u64).filter(|n| *n > 0).collect();
        let limit = match ctx.src.below(4) {
            0 => ctx.src.below(need),
            1 | 2 => ctx.src.pick(&sizes) - 1,
            _ => need + ctx.src.below(2),
        };
        ctx.describe(format!("largest file {need:#x}, limit {limit:#x}"));
        ctx.subcases += 2;
        let d = dir.join(format!("out{round}"));
        let r = py(ctx, json!([["open", iso.to_str().unwrap()], ["prepare", name], ["limit", limit], ["extract", d.to_str().unwrap(), "plain"]]))?;
        for x in &r[..3] {
            expect_ok(x, "preparation")?;
        }
        if limit < need {
            ctx.label("storage full while extracting");
            if ok(&r[3]) {
                return Err(format!("extraction reports success although a file of {need:#x} bytes cannot be stored (limit {limit:#x})"));
            }
        } else {
            expect_ok(&r[3], "extraction with enough storage")?;
        }
        let d = dir.join(format!("sys{round}"));
        let t = run_tool_limited(ctx.env, &["extract-sys", iso.to_str().unwrap(), d.to_str().unwrap(), &format!("--section={name}")], Some(limit))?;
        if (t.code == Some(0)) != (limit >= sys) {
            return Err(format!("extract-sys exits with {:?}, the largest system file has {sys:#x} bytes, the limit is {limit:#x}", t.code));
        }
    }
    // a single file ends up on a full device
    for round in 0..2 {
        let all: Vec<&String> = want.iter().filter(|x| !x.1.is_empty() && (round == 1 || x.0.starts_with("sys/"))).map(|x| x.0).collect();
        let path = (*ctx.src.pick(&all)).clone();
        let d = dir.join(format!("full{round}"));
        let base = if round == 0 { d.clone() } else { d.join(name) };
        let f = base.join(&path);
        io(std::fs::create_dir_all(f.parent().unwrap()));
        io(std::os::unix::fs::symlink("/dev/full", &f));
        ctx.label("one file on a full device");
        let good = if round == 0 {
            run_tool(ctx.env, &["extract-sys", iso.to_str().unwrap(), d.to_str().unwrap(), &format!("--section={name}")])?.code == Some(0)
        } else {
            let r = py(ctx, json!([["open", iso.to_str().unwrap()], ["prepare", name], ["extract", d.to_str().unwrap(), "plain"]]))?;
            expect_ok(&r[0], "open")?;
            expect_ok(&r[1], "prepare")?;
            ok(&r[2])
        };
        if good {
            return Err(format!("{} reports success although {path:?} is on a full device", ["extract-sys", "extraction"][round]));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

pub struct ToolOut {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

pub fn run_tool(env: &Env, args: &[&str]) -> Result<ToolOut, String> {
    run_tool_limited(env, args, None)
}

/// with a limit, writing beyond that many bytes of any file fails
pub fn run_tool_limited(env: &Env, args: &[&str], limit: Option<u64>) -> Result<ToolOut, String> {
    let mut c = Command::new(&env.iso_tool);
    if let Some(n) = limit {
        use std::os::unix::process::CommandExt;
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let o = c.args(args).stdin(Stdio::null()).env("LC_ALL", "C.UTF-8").env_remove("RUST_BACKTRACE").current_dir("/").output().map_err(|e| format!("HARNESS: cannot run iso-tool: {e}"))?;
    let t = ToolOut { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() };
    if t.code.is_none() || t.code == Some(101) || t.err.contains("panicked at") {
        return Err(format!("iso-tool {args:?} crashes ({:?}): {}", o.status, t.err.chars().take(400).collect::<String>()));
    }
    Ok(t)
}

fn must_fail(env: &Env, args: &[&str], why: &str) -> Result<ToolOut, String> {
    let t = run_tool(env, args)?;
    if t.code == Some(0) {
        return Err(format!("iso-tool {args:?} succeeds although {why}; output {:?}", t.out.chars().take(300).collect::<String>()));
    }
    if t.err.trim().is_empty() {
        return Err(format!("iso-tool {args:?} fails without a message ({why})"));
    }
    Ok(t)
}

fn must_work(env: &Env, args: &[&str]) -> Result<ToolOut, String> {
    let t = run_tool(env, args)?;
    if t.code != Some(0) {
        return Err(format!("iso-tool {args:?} fails with {:?}: {}", t.code, t.err));
    }
    Ok(t)
}

fn want_lines(t: &[FNode], lvl: usize, out: &mut Vec<String>) {
    for n in t {
        out.push(format!("{}{}", "  ".repeat(lvl), n.name()));
        if let FNode::Dir { kids, .. } = n {
            want_lines(kids, lvl + 1, out);
        }
    }
}

fn with_section<'a>(ctx: &mut Ctx, base: &[&'a str], name: &'a str) -> Vec<String> {
    let mut a: Vec<String> = base.iter().map(|x| x.to_string()).collect();
    if name == "DATA" && ctx.src.chance(1, 2) {
        return a;
    }
    let n = some_case(&mut ctx.src, name);
    if ctx.src.bool() {
        a.push(format!("--section={n}"));
    } else {
        a.push("--section".into());
        a.push(n);
    }
    a
}

fn strs(a: &[String]) -> Vec<&str> {
    a.iter().map(|x| x.as_str()).collect()
}

fn reports(ctx: &mut Ctx) -> Result<(), String> {
    let giant = ctx.src.chance(1, 10);
    let o = ImgOpts { tree: TreeOpts { max_nodes: 30, max_depth: 5, no_case_collisions: false, big: false }, max_parts: 4, max_groups: 2, max_contents: 4, giant, many: true, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    ctx.describe(img.describe());
    ctx.label_if(img.is_giant(), "image larger than 4 GiB");
    ctx.label_if(img.parts.len() > 1, "several partitions");
    ctx.label_if(img.parts.len() > 4, "long partition table");
    let dir = ctx.fresh_dir();
    let isob = dir.join(*ctx.src.pick(&["image.iso", "イメージ.iso", "a b.iso"]));
    io(img.write_file(&isob));
    let iso = isob.to_str().unwrap();
    let t = must_work(ctx.env, &["sections", iso])?;
    let got: Vec<(String, u64)> = t
        .out
        .lines()
        .map(|l| {
            let (a, b) = l.rsplit_once(':').ok_or_else(|| format!("sections prints {l:?}"))?;
            let b = b.trim();
            Ok((a.trim().to_ascii_lowercase(), u64::from_str_radix(b.trim_start_matches("0x"), 16).map_err(|_| format!("sections prints {l:?}"))?))
        })
        .collect::<Result<_, String>>()?;
    let want: Vec<(String, u64)> = img.parts.iter().map(|p| (SECTIONS[p.def.ptype as usize].to_ascii_lowercase(), p.off)).collect();
    if got != want {
        return Err(show("sections", got, want));
    }
    for name in SECTIONS {
        let pa = with_section(ctx, &["print-files", iso], name);
        let dest = dir.join(format!("sys-{name}"));
        let xa = with_section(ctx, &["extract-sys", iso, dest.to_str().unwrap()], name);
        match section_part(&img, name) {
            None => {
                ctx.label("absent section");
                must_fail(ctx.env, &strs(&pa), "the section is absent")?;
                must_fail(ctx.env, &strs(&xa), "the section is absent")?;
            }
            Some(i) => {
                let p = &img.parts[i];
                let t = must_work(ctx.env, &strs(&pa))?;
                let mut want = vec![];
                want_lines(&p.fst, 0, &mut want);
                if want.len() >= 4 {
                    ctx.nontrivial();
                }
                let got: Vec<String> = t.out.split('\n').map(|x| x.to_string()).collect();
                let got = if got.last().map_or(false, |x| x.is_empty()) { got[..got.len() - 1].to_vec() } else { got };
                if got != want {
                    let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    return Err(format!("print-files {name}: line {k} is {:?} instead of {:?} ({} lines, expected {})", got.get(k), want.get(k), got.len(), want.len()));
                }
                if ctx.src.chance(1, 3) {
                    // leftovers are replaced
                    io(std::fs::create_dir_all(dest.join("sys")));
                    let now = expected(&img, p, &BTreeSet::new());
                    for f in ["boot.bin", "bi2.bin", "apploader.img", "main.dol", "fst.bin"] {
                        if ctx.src.bool() {
                            io(std::fs::write(dest.join("sys").join(f), vec![9u8; if ctx.src.bool() { ctx.src.usize(0, 0x5000) } else { now[&format!("sys/{f}")].len() }]));
                        }
                    }
                }
                must_work(ctx.env, &strs(&xa))?;
                let mut want = expected(&img, p, &BTreeSet::new());
                want.retain(|k, _| k.starts_with("sys/"));
                same_files(&format!("extract-sys {name}"), &read_tree(&dest).0, &want)?;
            }
        }
    }
    Ok(())
}

fn rebuilds(ctx: &mut Ctx) -> Result<(), String> {
    let o = TreeOpts { max_nodes: 20, max_depth: 4, no_case_collisions: true, big: true };
    let d = gen_dir(ctx, &o);
    let dir = ctx.fresh_dir();
    let sdir = dir.join("src");
    write_dir(&sdir, &d, 0);
    if count(&d.def.tree).0 >= 2 {
        ctx.nontrivial();
    }
    let out = dir.join("out.iso");
    if ctx.src.bool() {
        // something longer is there already
        io(std::fs::write(&out, vec![0xCD; ctx.src.usize(1, 9 << 20)]));
        ctx.label("over an existing file");
    }
    must_work(ctx.env, &["rebuild", sdir.to_str().unwrap(), out.to_str().unwrap()])?;
    let got = io(std::fs::read(&out));
    let want = build_dir(&sdir).map_err(|e| format!("build_from_directory failed: {e}"))?;
    short_diff("image rebuilt by the tool against the library's", &got, &want)?;
    check_dir_image(&got, &d)
}

fn failures(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { tree: TreeOpts { max_nodes: 8, max_depth: 3, no_case_collisions: true, big: false }, max_parts: 2, max_groups: 1, max_contents: 2, ..IMG };
    let dir = ctx.fresh_dir();
    let isob = dir.join("image.iso");
    let iso = isob.to_str().unwrap();
    let dest = dir.join("dest");
    let dests = dest.to_str().unwrap().to_string();
    ctx.nontrivial();
    let kind = ctx.src.below(6);
    match kind {
        0 => {
            // names that are no section
            ctx.label("unknown section");
            let img = gen_image(&mut ctx.src, &o);
            io(img.write_file(&isob));
            let n = ctx.src.pick(&["", "DAT", "DATAA", "data ", " data", "GAME", "0", "デ", "ｄata", "partition"]).to_string();
            let sec = format!("--section={n}");
            must_fail(ctx.env, &["print-files", iso, &sec], "the section is unknown")?;
            must_fail(ctx.env, &["extract-sys", iso, &dests, &sec], "the section is unknown")?;
        }
        1 => {
            ctx.label("no image");
            let missing = dir.join("missing.iso");
            let p = if ctx.src.bool() { missing.to_str().unwrap().to_string() } else { dir.to_str().unwrap().to_string() };
            must_fail(ctx.env, &["sections", &p], "there is no image")?;
            must_fail(ctx.env, &["print-files", &p], "there is no image")?;
            must_fail(ctx.env, &["extract-sys", &p, &dests], "there is no image")?;
        }
        2 => {
            ctx.label("truncated image");
            let img = gen_image(&mut ctx.src, &o);
            io(img.write_file(&isob));
            let f = io(std::fs::OpenOptions::new().write(true).open(&isob));
            if ctx.src.bool() {
                let n = ctx.src.below(0x4E020);
                io(f.set_len(n));
                ctx.describe(format!("cut at {n:#x}"));
                must_fail(ctx.env, &["sections", iso], "the image ends before the region")?;
                must_fail(ctx.env, &["print-files", iso], "the image ends before the region")?;
                must_fail(ctx.env, &["extract-sys", iso, &dests], "the image ends before the region")?;
            } else {
                let i = ctx.src.usize(0, img.parts.len() - 1);
                let p = &img.parts[i];
                let sec = format!("--section={}", SECTIONS[p.def.ptype as usize]);
                // every partition that the name could denote is gone
                let first = section_part(&img, SECTIONS[p.def.ptype as usize]).unwrap();
                let q = &img.parts[first];
                let n = q.off + ctx.src.below(q.data_off + 0x200000 - 1);
                io(f.set_len(n.min(img.len)));
                ctx.describe(format!("partition {first} cut at {n:#x}"));
                must_fail(ctx.env, &["print-files", iso, &sec], "the partition is cut")?;
                must_fail(ctx.env, &["extract-sys", iso, &dests, &sec], "the partition is cut")?;
            }
        }
        3 => {
            ctx.label("mutated image");
            let img = gen_image(&mut ctx.src, &o);
            let mut lab = Lab::new(&img);
            let mut what = vec![];
            for _ in 0..ctx.src.range(1, 3) {
                what.push(mutate(ctx, &mut lab, &img).1);
            }
            ctx.describe(what.join("; "));
            io(std::fs::write(&isob, lab.view()));
            // only crashes are judged
            for a in [vec!["sections", iso], vec!["print-files", iso], vec!["extract-sys", iso, &dests]] {
                let t = run_tool(ctx.env, &a).map_err(|e| format!("{e} after {}", what.join("; ")))?;
                if t.code != Some(0) && t.err.trim().is_empty() {
                    return Err(format!("iso-tool {a:?} fails without a message after {}", what.join("; ")));
                }
            }
        }
        4 => {
            // directories that cannot be built
            ctx.label("unbuildable directory");
            let t = TreeOpts { max_nodes: 6, max_depth: 3, no_case_collisions: true, big: false };
            let d = gen_dir(ctx, &t);
            let sdir = dir.join("src");
            write_dir(&sdir, &d, 0);
            let data = sdir.join("DATA");
            let k = ctx.src.below(11) as usize;
            let needed = ["sys/boot.bin", "sys/bi2.bin", "sys/apploader.img", "sys/main.dol", "disc/region.bin", "ticket.bin", "tmd.bin", "cert.bin"];
            let why = if k < 8 {
                io(std::fs::remove_file(data.join(needed[k])));
                format!("{} is missing", needed[k])
            } else if k == 8 {
                io(std::fs::write(data.join("files/Twin"), b"1"));
                io(std::fs::write(data.join("files/tWIN"), b"2"));
                "two names collide".into()
            } else if k == 9 {
                io(std::fs::write(data.join("files/\u{1F600}"), b"1"));
                "a name is not representable".into()
            } else {
                io(std::fs::remove_dir_all(&data));
                "DATA is missing".into()
            };
            ctx.describe(why.clone());
            let out = dir.join("out.iso");
            must_fail(ctx.env, &["rebuild", sdir.to_str().unwrap(), out.to_str().unwrap()], &why)?;
        }
        _ => {
            // output that cannot be stored
            ctx.label("unwritable output");
            let t = TreeOpts { max_nodes: 6, max_depth: 3, no_case_collisions: true, big: false };
            let d = gen_dir(ctx, &t);
            let sdir = dir.join("src");
            write_dir(&sdir, &d, 0);
            let s = sdir.to_str().unwrap().to_string();
            must_fail(ctx.env, &["rebuild", &s, "/dev/full"], "the device is full")?;
            must_fail(ctx.env, &["rebuild", &s, &s], "the destination is a directory")?;
            let nodir = dir.join("no/such/out.iso");
            must_fail(ctx.env, &["rebuild", &s, nodir.to_str().unwrap()], "the destination's directory does not exist")?;
            let img = gen_image(&mut ctx.src, &o);
            io(img.write_file(&isob));
            let sec = SECTIONS[img.parts[0].def.ptype as usize];
            let sarg = format!("--section={sec}");
            let f = *ctx.src.pick(&["boot.bin", "bi2.bin", "apploader.img", "main.dol", "fst.bin"]);
            io(std::fs::create_dir_all(dest.join("sys")));
            if ctx.src.bool() {
                io(std::os::unix::fs::symlink("/dev/full", dest.join("sys").join(f)));
            } else {
                io(std::fs::create_dir(dest.join("sys").join(f)));
            }
            must_fail(ctx.env, &["extract-sys", iso, &dests, &sarg], "a system file cannot be written")?;
            if ctx.src.bool() {
                // arguments that make no sense
                must_fail(ctx.env, &["extract-sys", iso], "the destination is not given")?;
                must_fail(ctx.env, &["frobnicate"], "there is no such command")?;
            }
        }
    }
    let _ = Path::new(iso);
    Ok(())
}

pub fn c16() -> Property {
    let mut p = Property::new(
        "C16",
        "a report case counts when a printed tree has at least four nodes, a rebuild case when there are at least two files, a failure case always",
        vec![Suite::new("reports", 2_400, 30_000, reports), Suite::new("rebuilds", 600, 6_000, rebuilds), Suite::new("failures", 3_000, 40_000, failures)],
    );
    p.assumptions = &[
        "names contain no line breaks",
        "a partition offset is printed in hexadecimal after the partition's type",
        "a section name denotes the first partition of its type",
    ];
    p.address_space = None;
    p
}
