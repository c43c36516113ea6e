//! C18: the copy builder.
use crate::blob::Blob;
use crate::engine::*;
use crate::model::*;
use crate::refimage::*;
use crate::sut::*;
use crate::wiiref::*;
use disc_riider::builder::build_copy;

/// names, nesting, order and contents of a decoded partition against a tree over another partition's plaintext
pub fn same_contents(p: &DPart, got: &[FNode], w: &RefPart, want: &[FNode], at: &str) -> Result<(), String> {
    if got.len() != want.len() || got.iter().zip(want).any(|(a, b)| a.name() != b.name()) {
        return Err(format!("directory {at:?} holds {:?} instead of {:?}", got.iter().map(|n| n.name()).take(20).collect::<Vec<_>>(), want.iter().map(|n| n.name()).take(20).collect::<Vec<_>>()));
    }
    for (g, x) in got.iter().zip(want) {
        let name = format!("{at}/{}", x.name());
        match (g, x) {
            (FNode::File { off, len, .. }, FNode::File { off: woff, len: wlen, .. }) => {
                if len != wlen {
                    return Err(format!("{name:?} has {len:#x} bytes instead of {wlen:#x}"));
                }
                let end = off + *len as u64;
                if end > p.plain.len() as u64 {
                    return Err(format!("{name:?} lies outside the partition data"));
                }
                short_diff(&name, &p.plain[*off as usize..end as usize], &w.plain.slice(*woff, *wlen as u64))?;
            }
            (FNode::Dir { kids: a, .. }, FNode::Dir { kids: b, .. }) => same_contents(p, a, w, b, &name)?,
            _ => return Err(format!("{name:?} has the wrong node type")),
        }
    }
    Ok(())
}

/// system areas and metadata of a rebuilt partition
pub fn same_system(p: &DPart, w: &RefPart) -> Result<(), String> {
    if p.ticket != w.def.ticket {
        return Err(show("ticket", p.ticket.clone(), w.def.ticket.clone()));
    }
    let certs: Vec<u8> = w.def.certs.iter().flat_map(|c| c.encode()).collect();
    short_diff("certificates", &p.certs, &certs)?;
    if p.tmd.normalised() != w.def.tmd.normalised() {
        return Err(show("TMD", p.tmd.normalised(), w.def.tmd.normalised()));
    }
    if p.hdr.normalised() != w.hdr.normalised() {
        return Err(show("partition disc header", p.hdr.normalised(), w.hdr.normalised()));
    }
    let cut = |off: u64, len: usize| p.plain.get(off as usize..(off as usize).saturating_add(len)).unwrap_or(&[]);
    short_diff("bi2", cut(0x440, 0x2000), &w.def.bi2)?;
    short_diff("apploader", cut(0x2440, w.def.app.len()), &w.def.app)?;
    short_diff("DOL", cut(p.hdr.dol_off, w.def.dol.len()), &w.def.dol)
}

fn trim(t: &[FNode]) -> Vec<FNode> {
    t.iter()
        .map(|n| match n {
            FNode::Dir { name, kids } if name == "THP" => FNode::Dir { name: name.clone(), kids: kids.iter().filter(|k| k.name().as_bytes().starts_with(b"Demo")).cloned().collect() },
            _ => n.clone(),
        })
        .collect()
}

/// put interesting movie directories into the tree
fn movies(src: &mut Src, tree: &mut Vec<Node>) {
    const NAMES: [&str; 12] = ["Demo00.thp", "demo01.thp", "DEMO02.thp", "Demo", "Dem", "xDemo.thp", "Demo-sub", "Other.thp", "Demonstration", "a", "デモ", "Demoデモ"];
    fn movie_dir(src: &mut Src, d: usize) -> Vec<Node> {
        let mut kids: Vec<Node> = vec![];
        for _ in 0..src.usize(0, 6) {
            let name = src.pick(&NAMES).to_string();
            if kids.iter().any(|k| k.name() == name) {
                continue;
            }
            if d < 2 && src.chance(1, 4) {
                kids.push(Node::Dir { name, kids: movie_dir(src, d + 1) });
            } else {
                let len = gen_len(src, false);
                kids.push(Node::File { name, data: gen_blob(src, len), pad: 0 });
            }
        }
        kids
    }
    match src.weighted(&[5, 1, 2, 1, 1]) {
        0 => {
            tree.retain(|n| n.name() != "THP");
            let at = src.usize(0, tree.len());
            let kids = movie_dir(src, 0);
            tree.insert(at, Node::Dir { name: "THP".into(), kids });
        }
        1 => {}
        2 => {
            // not at the top level, or in other letter case
            tree.retain(|n| n.name() != "thp" && n.name() != "Video");
            let kids = movie_dir(src, 0);
            tree.push(Node::Dir { name: "thp".into(), kids });
            let kids = movie_dir(src, 0);
            tree.push(Node::Dir { name: "Video".into(), kids: vec![Node::Dir { name: "THP".into(), kids }] });
        }
        3 => {
            tree.retain(|n| n.name() != "THP");
            let len = gen_len(src, false);
            tree.push(Node::File { name: "THP".into(), data: Blob::new(len, 0, 4), pad: 0 });
        }
        _ => tree.retain(|n| n.name() != "THP"),
    }
}

fn copies(ctx: &mut Ctx) -> Result<(), String> {
    let src = &mut ctx.src;
    let mut o = IMG;
    o.max_groups = 3;
    o.tree.no_case_collisions = false;
    o.tree.big = src.chance(1, 3);
    o.giant = src.chance(1, 10);
    let n = src.usize(1, 3);
    let hdr = gen_hdr(src);
    let region = src.arr();
    let mut parts = vec![];
    for _ in 0..n {
        let mut d = gen_part(src, &o.tree, o.max_contents);
        movies(src, &mut d.tree);
        if src.chance(2, 3) {
            d.ptype = 0;
        }
        parts.push(place(src, d, &o));
    }
    let img = assemble(src, hdr, region, parts, &o);
    let dirt = src.below(3);
    ctx.describe(img.describe());
    let dir = ctx.fresh_dir();
    let (a, b) = (dir.join("source.iso"), dir.join("dest.iso"));
    ctx.label_if(img.is_giant(), "image larger than 4 GiB");
    img.write_file(&a).map_err(|e| format!("HARNESS: {e}"))?;
    // the destination exists already
    let old = match dirt {
        0 => vec![],
        1 => vec![0xAA; 0x90000],
        _ => Blob::new(0x300000, 0, 5).to_vec(),
    };
    std::fs::write(&b, &old).map_err(|e| format!("HARNESS: {e}"))?;
    ctx.label_if(dirt > 0, "destination held something else");
    let res = build_copy(&a, &b);
    if !img.same_file(&a).map_err(|e| format!("HARNESS: {e}"))? {
        return Err("the source image was modified".into());
    }
    let Some(w) = img.parts.iter().find(|p| p.def.ptype == 0) else {
        ctx.label("no DATA partition");
        return match res {
            Ok(()) => Err("an image without DATA partition was copied without an error".into()),
            Err(_) => Ok(()),
        };
    };
    res.map_err(|e| format!("build_copy fails: {e}"))?;
    let out = std::fs::read(&b).map_err(|e| format!("HARNESS: {e}"))?;
    let di = decode_image(&out)?;
    if di.hdr != img.hdr {
        return Err(show("disc header", di.hdr, img.hdr.clone()));
    }
    if di.region != img.region {
        return Err(show("region", di.region, img.region));
    }
    if di.parts.len() != 1 || di.parts[0].ptype != 0 {
        return Err(format!("the copy lists partitions of types {:?} instead of a single DATA partition", di.parts.iter().map(|p| p.ptype).collect::<Vec<_>>()));
    }
    let want = trim(&w.fst);
    ctx.label_if(want != w.fst, "movies trimmed");
    ctx.label_if(flat(&want).len() < flat(&w.fst).len() && flat(&want).iter().any(|f| f.0[0] == "THP"), "some movies kept, some dropped");
    ctx.label_if(img.parts.len() > 1, "other partitions left out");
    ctx.label_if(w.fst.iter().any(|n| n.name() == "THP" && matches!(n, FNode::File { .. })), "THP is a file");
    if want != w.fst || flat(&w.fst).len() > 1 {
        ctx.nontrivial();
    }
    same_system(&di.parts[0], w)?;
    same_contents(&di.parts[0], &di.parts[0].fst, w, &want, "")
}

/// sources and destinations that cannot work
fn fails(ctx: &mut Ctx) -> Result<(), String> {
    let kind = ctx.src.below(5);
    let mut o = IMG;
    o.wild = false;
    o.max_parts = 1;
    o.max_groups = 1;
    o.tree.big = false;
    o.tree.max_nodes = 6;
    let mut img = gen_image(&mut ctx.src, &o);
    img.parts[0].def.ptype = 0;
    let dir = ctx.fresh_dir();
    let (a, b) = (dir.join("source.iso"), dir.join("dest.iso"));
    let mut bytes = img.to_vec();
    put32(&mut bytes, 0x40024, 0);
    ctx.nontrivial();
    let what = match kind {
        0 => {
            let cut = if ctx.src.bool() { ctx.src.below(bytes.len() as u64 / 2) } else { bytes.len() as u64 - 1 - ctx.src.below(GROUP as u64 - 1) };
            bytes.truncate(cut as usize);
            "truncated source"
        }
        1 => {
            std::fs::write(&a, &bytes).map_err(|e| format!("HARNESS: {e}"))?;
            if build_copy(&a, std::path::Path::new("/dev/full")).is_ok() {
                return Err("writing to a full device is reported as success".into());
            }
            ctx.label("full device");
            return Ok(());
        }
        2 => {
            std::fs::write(&b, b"").map_err(|e| format!("HARNESS: {e}"))?;
            if build_copy(&a, &b).is_ok() {
                return Err("a missing source is reported as success".into());
            }
            ctx.label("missing source");
            return Ok(());
        }
        3 => {
            bytes[0x40000..0x40020].fill(0);
            "no partitions"
        }
        _ => {
            put32(&mut bytes, 0x40024, 1 + ctx.src.below(2) as u32);
            "no DATA partition"
        }
    };
    std::fs::write(&a, &bytes).map_err(|e| format!("HARNESS: {e}"))?;
    std::fs::write(&b, b"").map_err(|e| format!("HARNESS: {e}"))?;
    ctx.label(what);
    ctx.describe(what);
    match build_copy(&a, &b) {
        Ok(()) => Err(format!("{what}: reported as success")),
        Err(_) => {
            short_diff("the source image was modified", &std::fs::read(&a).map_err(|e| format!("HARNESS: {e}"))?, &bytes)?;
            Ok(())
        }
    }
}

pub fn c18() -> Property {
    let mut p = Property::new(
        "C18",
        "one case = one well-formed image from the reference encoder (1 to 3 partitions, random layout, movie directories with names around the Demo prefix at and below the top level) copied to an existing destination file; the copy is decoded independently and compared with the trimmed source, and the source file with its earlier content; non-trivial = something was trimmed or the DATA partition holds more than one file, or a source or destination that must fail",
        vec![Suite::new("copies", 1800, 25000, copies), Suite::new("fails", 600, 5000, fails)],
    );
    p.assumptions = &["the destination file exists (the copy builder does not create it)"];
    p
}
