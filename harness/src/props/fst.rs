//! C05 file-table edit histories against a reference tree, C06 file-table encoding.
use crate::engine::*;
use crate::model::{fix_name, gen_name, lower};
use crate::sut::lib_fst;
use crate::wiiref::*;
use disc_riider::{Fst, FstNode, FstToBytes};
use std::io::Cursor;

fn file(name: &str, offset: u64, length: u32) -> FstNode {
    FstNode::File { name: name.into(), offset, length }
}
fn dir(name: &str, files: Vec<FstNode>) -> FstNode {
    FstNode::Directory { name: name.into(), files }
}
fn name(n: &FstNode) -> &str {
    match n {
        FstNode::File { name, .. } | FstNode::Directory { name, .. } => name,
    }
}
fn set_name(n: &mut FstNode, s: &str) {
    match n {
        FstNode::File { name, .. } | FstNode::Directory { name, .. } => *name = s.to_string(),
    }
}

// ---- reference operations, written without the library's helpers ----

fn m_insert_pos(v: &[FstNode], key: &[u8]) -> usize {
    let mut i = 0;
    while i < v.len() && lower(name(&v[i])).as_slice() < key {
        i += 1;
    }
    i
}

fn m_add(root: &mut Vec<FstNode>, path: &[String], node: FstNode) -> Result<Option<FstNode>, ()> {
    let mut cand = root.clone();
    {
        let mut cur = &mut cand;
        for c in path {
            let key = lower(c);
            let at = match cur.iter().position(|n| lower(name(n)) == key) {
                Some(i) => i,
                None => {
                    let p = m_insert_pos(cur, &key);
                    cur.insert(p, dir(c, vec![]));
                    p
                }
            };
            cur = match &mut cur[at] {
                FstNode::Directory { files, .. } => files,
                FstNode::File { .. } => return Err(()),
            };
        }
        let key = lower(name(&node));
        match cur.iter().position(|n| lower(name(n)) == key) {
            Some(i) => {
                let old = std::mem::replace(&mut cur[i], node);
                *root = cand;
                return Ok(Some(old));
            }
            None => {
                let p = m_insert_pos(cur, &key);
                cur.insert(p, node);
            }
        }
    }
    *root = cand;
    Ok(None)
}

fn m_find<'a>(root: &'a [FstNode], path: &[String]) -> Option<&'a FstNode> {
    let (first, rest) = path.split_first()?;
    let n = root.iter().find(|n| name(n) == first)?;
    if rest.is_empty() {
        return Some(n);
    }
    match n {
        FstNode::Directory { files, .. } => m_find(files, rest),
        _ => None,
    }
}

fn m_with<'a>(root: &'a mut Vec<FstNode>, path: &[String]) -> Option<(&'a mut Vec<FstNode>, usize)> {
    let (first, rest) = path.split_first()?;
    let i = root.iter().position(|n| name(n) == first)?;
    if rest.is_empty() {
        return Some((root, i));
    }
    match &mut root[i] {
        FstNode::Directory { files, .. } => m_with(files, rest),
        _ => None,
    }
}

fn m_sort(v: &mut Vec<FstNode>) {
    v.sort_by(|a, b| lower(name(a)).cmp(&lower(name(b))));
    for n in v {
        if let FstNode::Directory { files, .. } = n {
            m_sort(files);
        }
    }
}

fn m_list(v: &[FstNode], p: &mut Vec<String>, out: &mut Vec<(Vec<String>, FstNode)>) {
    for n in v {
        p.push(name(n).to_string());
        out.push((p.clone(), n.clone()));
        if let FstNode::Directory { files, .. } = n {
            m_list(files, p, out);
        }
        p.pop();
    }
}

fn listing(v: &[FstNode]) -> Vec<(Vec<String>, FstNode)> {
    let mut o = vec![];
    m_list(v, &mut vec![], &mut o);
    o
}

fn ordered(v: &[FstNode]) -> bool {
    v.windows(2).all(|w| lower(name(&w[0])) <= lower(name(&w[1]))) && v.iter().all(|n| if let FstNode::Directory { files, .. } = n { ordered(files) } else { true })
}

/// order-independent form
fn canon(v: &[FstNode]) -> Vec<String> {
    let mut o: Vec<String> = v
        .iter()
        .map(|n| match n {
            FstNode::File { .. } => format!("{n:?}"),
            FstNode::Directory { name, files } => format!("{name:?}{:?}", canon(files)),
        })
        .collect();
    o.sort();
    o
}

// ---- generators ----

const NAMES: [&str; 30] = [
    "a", "A", "b", "B", "ab", "aB", "Ab", "AB", "abc", "a0", "a_", "A_", "a[", "a`", "a{", "@", "[", "_", "`", "z", "Z", "zz", "日", "あ", "a日", "A日", "é", "É", ".", "0",
];

fn pname(src: &mut Src) -> String {
    if src.chance(1, 12) {
        return gen_name(src).replace(['/', '\0'], "_");
    }
    src.pick(&NAMES).to_string()
}

fn sorted_tree(src: &mut Src, budget: usize, d: usize) -> Vec<FstNode> {
    let n = src.usize(0, budget);
    let mut v: Vec<FstNode> = vec![];
    for _ in 0..n {
        let nm = pname(src);
        if v.iter().any(|x| lower(name(x)) == lower(&nm)) {
            continue;
        }
        let node = if d < 3 && src.chance(2, 5) { dir(&nm, sorted_tree(src, budget / 2, d + 1)) } else { file(&nm, 4 * src.below(1000), src.below(1000) as u32) };
        let p = m_insert_pos(&v, &lower(&nm));
        v.insert(p, node);
    }
    v
}

fn gen_path(src: &mut Src, tree: &[FstNode]) -> Vec<String> {
    // mostly paths that exist, sometimes with changed case, a missing part or something below a file
    let l = listing(tree);
    let mut p = if !l.is_empty() && src.chance(3, 4) { src.pick(&l).0.clone() } else { vec![] };
    match src.weighted(&[5, 2, 2, 1]) {
        0 => {}
        1 => {
            let n = src.usize(1, 2);
            for _ in 0..n {
                p.push(pname(src));
            }
        }
        2 => {
            if let Some(c) = p.last_mut() {
                let i = src.usize(0, c.len().max(1) - 1);
                if c.is_char_boundary(i) && c.is_char_boundary((i + 1).min(c.len())) && !c.is_empty() {
                    let x: String = c.chars().enumerate().map(|(k, ch)| if k == i { if ch.is_ascii_lowercase() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() } } else { ch }).collect();
                    *c = x;
                }
            }
        }
        _ => {
            p.pop();
        }
    }
    p
}

fn join_path(src: &mut Src, p: &[String]) -> String {
    // redundant slashes mean nothing
    let mut s = String::new();
    if src.chance(1, 5) {
        s.push('/');
    }
    for (i, c) in p.iter().enumerate() {
        if i > 0 {
            s.push('/');
            if src.chance(1, 8) {
                s.push('/');
            }
        }
        s.push_str(c);
    }
    if src.chance(1, 6) {
        s.push('/');
    }
    s
}

fn history(ctx: &mut Ctx) -> Result<(), String> {
    let start = if ctx.src.bool() { sorted_tree(&mut ctx.src, 5, 0) } else { vec![] };
    let mut m = start.clone();
    let mut f = lib_fst(start.clone());
    let n = ctx.src.usize(1, 40);
    let mut log: Vec<String> = vec![];
    let mut edits = 0;
    for i in 0..n {
        let kind = ctx.src.weighted(&[8, 3, 3, 2, 1, 2, 1]);
        let path = gen_path(&mut ctx.src, &m);
        let what;
        match kind {
            0 => {
                let nm = pname(&mut ctx.src);
                let node = match ctx.src.weighted(&[4, 1, 1, 1]) {
                    0 => file(&nm, 4 * ctx.src.below(1 << 20), ctx.src.int(32) as u32),
                    1 => FstNode::create_file(nm.clone()),
                    2 => FstNode::create_dir(nm.clone()),
                    _ => dir(&nm, sorted_tree(&mut ctx.src, 3, 2)),
                };
                // parent paths that are directories are the interesting half
                let mut parent = path.clone();
                if ctx.src.bool() && matches!(m_find(&m, &parent), Some(FstNode::File { .. })) {
                    parent.pop();
                }
                let want = m_add(&mut m, &parent, node.clone());
                let got = if ctx.src.bool() {
                    let s = join_path(&mut ctx.src, &parent);
                    what = format!("add_node_path({s:?}, {:?})", name(&node));
                    f.add_node_path(&s, node)
                } else {
                    what = format!("add_node_iter({parent:?}, {:?})", name(&node));
                    f.add_node_iter(parent.iter().map(|s| s.as_str()), node)
                };
                if got != want {
                    return Err(format!("op {i} {what} after {log:?}: returned {got:?} instead of {want:?}"));
                }
                ctx.label_if(want.is_err(), "add below a file");
                ctx.label_if(matches!(want, Ok(Some(_))), "add replaces");
                ctx.label_if(matches!(want, Ok(None)), "add creates");
                edits += want.is_ok() as usize;
            }
            1 => {
                let s = join_path(&mut ctx.src, &path);
                let want = m_find(&m, &path).cloned();
                what = format!("find({s:?})");
                let a = f.find_node_path(&s).cloned();
                let b = f.find_node_iter(path.iter().map(|s| s.as_str())).cloned();
                if a != want || b != want {
                    return Err(format!("op {i} {what} after {log:?}: found {a:?} / {b:?} instead of {want:?}"));
                }
                ctx.label_if(want.is_some(), "find hit");
                ctx.label_if(want.is_none(), "find miss");
            }
            2 => {
                let want = m_with(&mut m, &path).map(|(v, i)| v.remove(i));
                let got = if ctx.src.bool() {
                    let s = join_path(&mut ctx.src, &path);
                    what = format!("remove_node_path({s:?})");
                    f.remove_node_path(&s)
                } else {
                    what = format!("remove_node_iter({path:?})");
                    f.remove_node_iter(path.iter().map(|s| s.as_str()))
                };
                if got != want {
                    return Err(format!("op {i} {what} after {log:?}: returned {got:?} instead of {want:?}"));
                }
                ctx.label_if(want.is_some(), "remove hit");
                edits += want.is_some() as usize;
            }
            3 => {
                // edit a node in place
                let s = join_path(&mut ctx.src, &path);
                what = format!("find_mut({s:?})");
                let v = ctx.src.below(1 << 16) as u32;
                let got = if ctx.src.bool() { f.find_node_path_mut(&s) } else { f.find_node_iter_mut(path.iter().map(|s| s.as_str())) };
                let want = m_with(&mut m, &path);
                match (got, want) {
                    (None, None) => {}
                    (Some(g), Some((w, k))) => {
                        if *g != w[k] {
                            return Err(format!("op {i} {what} after {log:?}: found {g:?} instead of {:?}", w[k]));
                        }
                        if let (FstNode::File { length: a, .. }, FstNode::File { length: b, .. }) = (g, &mut w[k]) {
                            *a = v;
                            *b = v;
                            edits += 1;
                        }
                    }
                    (g, w) => return Err(format!("op {i} {what} after {log:?}: found {:?} instead of {:?}", g.map(|x| x.clone()), w.map(|x| x.0[x.1].clone()))),
                }
            }
            4 => {
                // disturb the order, then restore it
                what = "shuffle + fix_ordering".to_string();
                fn mess(v: &mut Vec<FstNode>, src: &mut Src) {
                    for i in (1..v.len()).rev() {
                        let j = src.usize(0, i);
                        v.swap(i, j);
                    }
                    for n in v {
                        if let FstNode::Directory { files, .. } = n {
                            mess(files, src);
                        }
                    }
                }
                mess(f.get_entries_mut(), &mut ctx.src);
                if ctx.src.chance(1, 3) {
                    // rename something to a free name
                    let l = listing(f.get_entries());
                    if !l.is_empty() {
                        let p = ctx.src.pick(&l).0.clone();
                        let nn = format!("{}~{}", pname(&mut ctx.src), i);
                        for v in [f.get_entries_mut(), &mut m] {
                            let (v, k) = m_with(v, &p).unwrap();
                            set_name(&mut v[k], &nn);
                        }
                    }
                }
                m_sort(&mut m);
                f.fix_ordering();
                ctx.label("reorder");
            }
            5 => {
                what = "visit".to_string();
                visit(ctx, &mut f, &mut m, i)?;
            }
            _ => {
                what = "fix_ordering".to_string();
                f.fix_ordering();
            }
        }
        log.push(what.clone());
        if *f.get_entries() != m {
            return Err(format!("after {log:?}: tree {:?} instead of {:?}", f.get_entries(), m));
        }
        if !ordered(f.get_entries()) {
            return Err(format!("after {log:?}: not ordered"));
        }
    }
    ctx.describe(format!("start {} nodes: {}", listing(&start).len(), log.join(", ")));
    if edits >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn visit(ctx: &mut Ctx, f: &mut Fst, m: &mut Vec<FstNode>, i: usize) -> Result<(), String> {
    let want = listing(m);
    let mut got = vec![];
    let r = f.callback_all_files::<(), _>(&mut |p, n| {
        got.push((p.iter().map(|s| s.to_string()).collect::<Vec<_>>(), n.clone()));
        Ok(())
    });
    if r.is_err() || got != want {
        return Err(format!("op {i}: callback_all_files saw {got:?} instead of {want:?}"));
    }
    // mutable visitor, changing lengths
    let delta = ctx.src.below(100) as u32;
    let mut got = vec![];
    let _ = f.callback_all_files_mut::<(), _>(&mut |p, n| {
        got.push((p.clone(), n.clone()));
        if let FstNode::File { length, .. } = n {
            *length = length.wrapping_add(delta);
        }
        Ok(())
    });
    if got != want {
        return Err(format!("op {i}: callback_all_files_mut saw {got:?} instead of {want:?}"));
    }
    for (p, n) in &want {
        if let FstNode::File { .. } = n {
            let (v, k) = m_with(m, p).unwrap();
            if let FstNode::File { length, .. } = &mut v[k] {
                *length = length.wrapping_add(delta);
            }
        }
    }
    // an error stops the visit and is handed back
    if !want.is_empty() {
        let k = ctx.src.usize(0, want.len() - 1);
        let mut seen = 0;
        let r = f.callback_all_files::<usize, _>(&mut |_, _| {
            seen += 1;
            if seen == k + 1 {
                Err(k)
            } else {
                Ok(())
            }
        });
        if r != Err(k) || seen != k + 1 {
            return Err(format!("op {i}: an error at node {k} gives {r:?} after {seen} nodes"));
        }
        let mut seen = 0;
        let r = f.callback_all_files_mut::<usize, _>(&mut |_, _| {
            seen += 1;
            if seen == k + 1 {
                Err(k)
            } else {
                Ok(())
            }
        });
        if r != Err(k) || seen != k + 1 {
            return Err(format!("op {i}: an error at node {k} of the mutable visit gives {r:?} after {seen} nodes"));
        }
    }
    // files only, through the serialiser (if the names can be stored)
    if let Ok(mut b) = FstToBytes::try_from(f.clone()) {
        let fw: Vec<_> = listing(m).into_iter().filter(|(_, n)| matches!(n, FstNode::File { .. })).collect();
        if b.get_total_file_count() != fw.len() {
            return Err(format!("op {i}: file count {} instead of {}", b.get_total_file_count(), fw.len()));
        }
        let mut got = vec![];
        let _ = b.callback_all_files_mut::<(), _>(&mut |p, o, l| {
            got.push((p.clone(), file(p.last().unwrap(), *o, *l)));
            Ok(())
        });
        if got != fw {
            return Err(format!("op {i}: the serialiser's visitor saw {got:?} instead of {fw:?}"));
        }
        if !fw.is_empty() {
            let k = ctx.src.usize(0, fw.len() - 1);
            let mut seen = 0;
            let r = b.callback_all_files_mut::<usize, _>(&mut |_, _, _| {
                seen += 1;
                if seen == k + 1 {
                    Err(k)
                } else {
                    Ok(())
                }
            });
            if r != Err(k) || seen != k + 1 {
                return Err(format!("op {i}: an error at file {k} gives {r:?} after {seen} files"));
            }
        }
    }
    ctx.label("visitors");
    Ok(())
}

fn any_tree(src: &mut Src, budget: usize, d: usize) -> Vec<FstNode> {
    let n = src.usize(0, budget);
    (0..n)
        .map(|_| {
            let nm = pname(src);
            if d < 4 && src.chance(2, 5) {
                dir(&nm, any_tree(src, budget / 2, d + 1))
            } else {
                file(&nm, 4 * src.below(1000), src.below(1000) as u32)
            }
        })
        .collect()
}

/// reordering of arbitrary trees, also with names that are equal ignoring case
fn reorder(ctx: &mut Ctx) -> Result<(), String> {
    let b = ctx.src.usize(1, 40);
    let t = any_tree(&mut ctx.src, b, 0);
    let mut f = lib_fst(t.clone());
    f.fix_ordering();
    ctx.describe(format!("{} nodes", listing(&t).len()));
    if listing(&t).len() >= 3 {
        ctx.nontrivial();
    }
    ctx.label_if(!ordered(&t), "unordered input");
    if !ordered(f.get_entries()) {
        return Err(format!("{t:?} is not ordered after fix_ordering: {:?}", f.get_entries()));
    }
    if canon(f.get_entries()) != canon(&t) {
        return Err(format!("fix_ordering of {t:?} changed nodes: {:?}", f.get_entries()));
    }
    for (_, n) in listing(&t) {
        for (_, o) in listing(&t).into_iter().take(6) {
            if n.node_compare(&o) != lower(name(&n)).cmp(&lower(name(&o))) {
                return Err(format!("node_compare of {:?} and {:?} is {:?}", name(&n), name(&o), n.node_compare(&o)));
            }
        }
        if n.is_dir() == n.is_file() || n.is_dir() != matches!(n, FstNode::Directory { .. }) || n.get_name() != name(&n) {
            return Err(format!("node kind of {n:?}"));
        }
    }
    Ok(())
}

/// longer, shorter, same length, other case, or only different in the middle
fn new_name(old: &str, k: usize, bits: u64) -> String {
    let c: Vec<char> = old.chars().collect();
    match mix(bits ^ k as u64) % 6 {
        0 => format!("{old}~{k}"),
        1 => c.iter().map(|_| (b'a' + (k % 26) as u8) as char).collect(),
        2 => c.iter().rev().collect(),
        3 => c[..c.len() / 2].iter().collect::<String>() + "q",
        4 => c.iter().map(|x| if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() }).collect(),
        _ => {
            let mut v = c.clone();
            let i = v.len() / 2;
            if i < v.len() {
                v[i] = if v[i] == 'x' { 'y' } else { 'x' };
            }
            v.into_iter().collect()
        }
    }
}

/// renaming during the mutable visit: paths of the children follow the new name
fn rename_visit(ctx: &mut Ctx) -> Result<(), String> {
    let t = any_tree(&mut ctx.src, 8, 0);
    let mut f = lib_fst(t.clone());
    let bits = ctx.src.u64();
    let mut got = vec![];
    let mut k = 0;
    let _ = f.callback_all_files_mut::<(), _>(&mut |p, n| {
        got.push(p.clone());
        if bits >> (k % 64) & 1 == 1 {
            let x = new_name(name(n), k, bits);
            set_name(n, &x);
        }
        k += 1;
        Ok(())
    });
    fn rec(v: &mut [FstNode], p: &mut Vec<String>, k: &mut usize, bits: u64, out: &mut Vec<Vec<String>>) {
        for n in v {
            p.push(name(n).to_string());
            out.push(p.clone());
            if bits >> (*k % 64) & 1 == 1 {
                let x = new_name(name(n), *k, bits);
                set_name(n, &x);
                *p.last_mut().unwrap() = x;
            }
            *k += 1;
            if let FstNode::Directory { files, .. } = n {
                rec(files, p, k, bits, out);
            }
            p.pop();
        }
    }
    let mut m = t.clone();
    let mut want = vec![];
    rec(&mut m, &mut vec![], &mut 0, bits, &mut want);
    ctx.describe(format!("{} nodes", want.len()));
    if want.len() >= 2 && bits != 0 {
        ctx.nontrivial();
    }
    if got != want {
        return Err(format!("visit of {t:?} with renames {bits:#x} saw {got:?} instead of {want:?}"));
    }
    if *f.get_entries() != m {
        return Err(format!("visit of {t:?} with renames {bits:#x} left {:?}", f.get_entries()));
    }
    Ok(())
}

pub fn c05() -> Property {
    Property::new(
        "C05",
        "one case = a generated start tree and a history of up to 40 adds, finds, removes, in-place edits, reorders and visits (paths biased to existing nodes, case variants and paths below files), compared with a reference tree after every operation; non-trivial = at least two successful edits (histories), three nodes (reorder), or a rename among two or more nodes",
        vec![Suite::new("history", 360000, 3000000, history), Suite::new("reorder", 6000, 100000, reorder), Suite::new("rename-visit", 60000, 500000, rename_visit)],
    )
}

// ---- C06 ----

fn to_fnodes(v: &[FstNode]) -> Vec<FNode> {
    v.iter()
        .map(|n| match n {
            FstNode::File { name, offset, length } => FNode::File { name: name.clone(), off: *offset, len: *length },
            FstNode::Directory { name, files } => FNode::Dir { name: name.clone(), kids: to_fnodes(files) },
        })
        .collect()
}

fn enc_name(src: &mut Src) -> String {
    match src.weighted(&[6, 2, 1]) {
        0 => fix_name(gen_name(src)),
        1 => NAMES[src.usize(0, 27)].replace(['é', 'É'], "e"),
        _ => {
            // random double-byte characters
            let n = src.usize(1, 5);
            let mut s = String::new();
            for _ in 0..n {
                let hi = *src.pick(&[0x81u8, 0x83, 0x88, 0x89, 0x8f, 0x95, 0x9f, 0xe0, 0xe5, 0xea, 0xfa, 0xfb]);
                let lo = src.range(0x40, 0xfc) as u8;
                if let Some(x) = sjis_decode(&[hi, lo]) {
                    s.push_str(&x);
                }
            }
            fix_name(s)
        }
    }
}

fn enc_tree(src: &mut Src, budget: &mut usize, d: usize, maxd: usize) -> Vec<FstNode> {
    let mut v = vec![];
    while *budget > 0 {
        if d > 0 && src.chance(1, 4) {
            break;
        }
        *budget -= 1;
        let nm = enc_name(src);
        if d < maxd && src.chance(2, 5) {
            v.push(dir(&nm, enc_tree(src, budget, d + 1, maxd)));
        } else {
            v.push(file(&nm, src.int(32) << 2, src.int(32) as u32));
        }
    }
    v
}

/// serialise, parse independently, read back, also at a stream offset and between other bytes
fn check_encode(t: &[FstNode], prefix: usize, suffix: usize) -> Result<(), String> {
    let b = FstToBytes::try_from(lib_fst(t.to_vec())).map_err(|e| format!("refused: {e}"))?;
    let mut cur = Cursor::new(vec![0xA5u8; prefix]);
    cur.set_position(prefix as u64);
    b.write_to(&mut cur).map_err(|e| format!("write_to failed: {e}"))?;
    let end = cur.position() as usize;
    let mut bytes = cur.into_inner();
    if bytes.len() != end || bytes[..prefix].iter().any(|x| *x != 0xA5) {
        return Err("write_to wrote outside its range".into());
    }
    let (parsed, used) = parse_fst(&bytes[prefix..])?;
    if parsed != to_fnodes(t) {
        return Err(format!("independent parser sees {parsed:?} instead of {t:?}"));
    }
    if used > end - prefix {
        return Err(format!("table uses {used} bytes of {}", end - prefix));
    }
    bytes.extend(std::iter::repeat(0x5A).take(suffix));
    let back = Fst::read(&mut Cursor::new(&bytes), prefix as u64).map_err(|e| format!("cannot be read back: {e}"))?;
    if back.get_entries() != t {
        return Err(format!("read back as {:?} instead of {t:?}", back.get_entries()));
    }
    Ok(())
}

fn encode(ctx: &mut Ctx) -> Result<(), String> {
    let mut budget = match ctx.src.weighted(&[5, 3, 1]) {
        0 => ctx.src.usize(0, 12),
        1 => ctx.src.usize(0, 60),
        _ => ctx.src.usize(0, 600),
    };
    let maxd = *ctx.src.pick(&[3usize, 6, 20, 60]);
    let t = enc_tree(&mut ctx.src, &mut budget, 0, maxd);
    let l = listing(&t);
    ctx.describe(format!("{} nodes, depth {}: {:?}", l.len(), l.iter().map(|x| x.0.len()).max().unwrap_or(0), l.iter().take(6).map(|x| x.0.join("/")).collect::<Vec<_>>()));
    ctx.label_if(l.iter().any(|(_, n)| matches!(n, FstNode::Directory { files, .. } if files.is_empty())), "empty directory");
    ctx.label_if(l.iter().any(|x| x.0.len() > 8), "deeper than 8");
    ctx.label_if(l.len() > 100, "more than 100 nodes");
    ctx.label_if(t.is_empty(), "empty table");
    ctx.label_if(l.iter().any(|x| !x.0.last().unwrap().is_ascii()), "non-ASCII name");
    if l.len() >= 2 {
        ctx.nontrivial();
    }
    let (a, b) = (ctx.src.usize(0, 40), ctx.src.usize(0, 9));
    check_encode(&t, a, b)
}

/// tables written by the reference encoder in other styles
fn decode(ctx: &mut Ctx) -> Result<(), String> {
    let mut budget = ctx.src.usize(0, 60);
    let t = enc_tree(&mut ctx.src, &mut budget, 0, 12);
    let style = ctx.src.below(3);
    let prefix = ctx.src.usize(0, 50);
    let mut bytes = vec![0x77; prefix];
    bytes.extend(encode_fst(&to_fnodes(&t), style));
    bytes.extend([0x33; 7]);
    ctx.describe(format!("{} nodes style {style}", listing(&t).len()));
    if listing(&t).len() >= 2 {
        ctx.nontrivial();
    }
    ctx.label_if(style > 0, "shared or reordered name table");
    let f = Fst::read(&mut Cursor::new(&bytes), prefix as u64).map_err(|e| format!("valid table (style {style}) of {t:?} rejected: {e}"))?;
    if *f.get_entries() != t {
        return Err(format!("table (style {style}) read as {:?} instead of {t:?}", f.get_entries()));
    }
    Ok(())
}

/// offsets and lengths updated through the serialiser's visitor are what gets written
fn update(ctx: &mut Ctx) -> Result<(), String> {
    let mut budget = ctx.src.usize(0, 30);
    let t = enc_tree(&mut ctx.src, &mut budget, 0, 5);
    let seed = ctx.src.below(1 << 30);
    let mut b = FstToBytes::try_from(lib_fst(t.clone())).map_err(|e| format!("refused: {e}"))?;
    // written before the update (as the builder does) and after
    let mut cur = Cursor::new(vec![]);
    b.write_to(&mut cur).map_err(|e| e.to_string())?;
    let first = cur.position();
    let mut k = 0u64;
    let _ = b.callback_all_files_mut::<(), _>(&mut |_, o, l| {
        *o = (mix(seed + k) & 0xffff_ffff) << 2;
        *l = mix(seed ^ k) as u32;
        k += 1;
        Ok(())
    });
    cur.set_position(0);
    b.write_to(&mut cur).map_err(|e| e.to_string())?;
    if cur.position() != first {
        return Err("size of the table changed with offsets".into());
    }
    fn upd(v: &mut [FstNode], seed: u64, k: &mut u64) {
        for n in v {
            match n {
                FstNode::File { offset, length, .. } => {
                    *offset = (mix(seed + *k) & 0xffff_ffff) << 2;
                    *length = mix(seed ^ *k) as u32;
                    *k += 1;
                }
                FstNode::Directory { files, .. } => upd(files, seed, k),
            }
        }
    }
    let mut m = t.clone();
    upd(&mut m, seed, &mut 0);
    ctx.describe(format!("{k} files"));
    if k >= 2 {
        ctx.nontrivial();
    }
    let (p, _) = parse_fst(&cur.into_inner())?;
    if p != to_fnodes(&m) {
        return Err(format!("after the update the table holds {p:?} instead of {m:?}"));
    }
    Ok(())
}

const TRICKY: [char; 28] = [
    '\u{a5}', '\u{203e}', '\u{2212}', '\\', '~', '\u{ff3c}', '\u{ff5e}', '\u{301c}', '\u{2225}', '\u{2016}', '\u{ffe2}', '\u{ac}', '\u{ffe0}', '\u{a2}', '\u{80}', '\u{e000}', '\u{e757}', '\u{f8f0}', '\u{fffd}', '\u{feff}', 'é', 'ñ', '😀', '\u{0}',
    '\u{2010}', '\u{2014}', '\u{2015}', '\u{b5}',
];

/// arbitrary Unicode names: stored exactly or refused
fn unicode(ctx: &mut Ctx) -> Result<(), String> {
    let n = ctx.src.usize(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        let c = match ctx.src.weighted(&[2, 2, 2, 1]) {
            0 => ctx.src.range(0x20, 0x7e) as u8 as char,
            1 => *ctx.src.pick(&TRICKY),
            2 => char::from_u32(ctx.src.range(1, 0xffff) as u32).unwrap_or('x'),
            _ => char::from_u32(ctx.src.range(1, 0x10ffff) as u32).unwrap_or('y'),
        };
        s.push(c);
    }
    let representable = sjis_exact(&s) && !s.contains('\0');
    let inner = ctx.src.bool();
    let as_dir = ctx.src.bool();
    let node = if as_dir { dir(&s, vec![file("k", 8, 9)]) } else { file(&s, 4, 5) };
    let t = if inner { vec![dir("d", vec![file("a", 0, 0), node])] } else { vec![node] };
    ctx.describe(format!("{s:?} representable {representable}"));
    ctx.label(if representable { "representable name" } else { "name not representable" });
    ctx.nontrivial();
    match FstToBytes::try_from(lib_fst(t.clone())) {
        Ok(_) => {
            if !representable {
                return Err(format!("name {s:?} has no exact Shift-JIS form but is accepted"));
            }
            check_encode(&t, 0, 3)
        }
        Err(e) => {
            if representable {
                Err(format!("name {s:?} refused: {e}"))
            } else {
                Ok(())
            }
        }
    }
}

/// every character of the basic plane alone as a name
fn every_char(ctx: &mut Ctx) -> Result<(), String> {
    let block = ctx.src.below(256) as u32;
    let mut exact = 0;
    for lo in 0..256u32 {
        let Some(c) = char::from_u32(block << 8 | lo) else { continue };
        if c == '\0' {
            continue;
        }
        let s = format!("{c}");
        let want = sjis_exact(&s);
        exact += want as u32;
        let t = vec![file(&s, 4, 5), file("z", 8, 1)];
        match FstToBytes::try_from(lib_fst(t.clone())) {
            Ok(_) if !want => return Err(format!("name {s:?} has no exact Shift-JIS form but is accepted")),
            Ok(_) => check_encode(&t, 0, 0).map_err(|e| format!("name {s:?}: {e}"))?,
            Err(e) if want => return Err(format!("name {s:?} refused: {e}")),
            Err(_) => {}
        }
    }
    ctx.subcases = 256;
    ctx.describe(format!("U+{block:02X}00..U+{block:02X}FF, {exact} representable"));
    if exact > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

/// very deep, very wide and very long tables: exact or refused
fn extremes(ctx: &mut Ctx) -> Result<(), String> {
    let k = ctx.src.below(32);
    let mut must = true;
    let t = match k {
        0..=5 => {
            let d = [40usize, 100, 300, 600, 1500, 5000][k as usize];
            must = d <= 100;
            let mut v = vec![file("leaf", 4, 7)];
            for i in 0..d {
                v = vec![file("a", i as u64 * 4, 1), dir(&format!("d{}", i % 7), v), file("z", 0, i as u32)];
            }
            v
        }
        6 => (0..70000u32).map(|i| file(&format!("{i:x}"), 0, i)).collect(),
        12..=25 => {
            // around a limit of nesting
            let mut v = vec![];
            for i in 0..500 + k as usize {
                v = vec![dir(&format!("d{}", i % 7), v)];
            }
            must = false;
            v
        }
        26..=31 => {
            // directories, also nested ones, among more than 65536 entries
            let n = [65520u32, 65530, 65534, 65536, 70000, 140000][k as usize - 26];
            let mut v: Vec<FstNode> = (0..n).map(|i| file(&format!("{i:x}"), 0, i)).collect();
            for i in 0..12 {
                v.push(dir(&format!("~{i:02}"), vec![dir("a", vec![file("x", 8, i)]), dir("b", vec![dir("c", vec![]), file("d", 0, 1)]), file("y", 4, i)]));
            }
            v
        }
        7 => (0..3000u32).map(|i| dir(&format!("d{i}"), if i % 3 == 0 { vec![] } else { vec![file("x", 4, i)] })).collect(),
        _ => {
            // name table just below, across and above 16 MiB
            let want = [0xff_f000usize, 0xff_fff0, 0x100_0040, 0x140_0000][k as usize - 8];
            must = want < 0x100_0000;
            let name = "n".repeat(4000);
            let mut v: Vec<FstNode> = vec![];
            let mut used = 1;
            let mut i = 0;
            while used < want {
                let nm = format!("{i:06}{}", &name[..(want - used).saturating_sub(7).min(4000)]);
                used += nm.len() + 1;
                v.push(file(&nm, 4 * i, i as u32));
                i += 1;
            }
            v
        }
    };
    ctx.describe(format!("extreme table {k}"));
    ctx.nontrivial();
    match FstToBytes::try_from(lib_fst(t.clone())) {
        Ok(_) => check_encode(&t, 4, 4).map_err(|e| format!("extreme table {k}: {}", e.chars().take(300).collect::<String>())),
        Err(e) if must => Err(format!("extreme table {k} refused: {}", e.to_string().chars().take(100).collect::<String>())),
        Err(_) => {
            ctx.label("extreme table refused");
            Ok(())
        }
    }
}

pub fn c06() -> Property {
    let mut p = Property::new(
        "C06",
        "one case = a generated tree (names from ASCII, kana, kanji and half-width pools, depth up to 60, up to 600 nodes, arbitrary offsets and lengths) that is serialised, parsed by an independent parser and read back at a stream offset; or a table of the reference encoder; or an arbitrary Unicode name; non-trivial = at least two nodes, or a name test",
        vec![
            Suite::new("encode", 300000, 3000000, encode),
            Suite::new("decode", 200000, 2000000, decode),
            Suite::new("update", 120000, 1000000, update),
            Suite::new("unicode", 400000, 3000000, unicode),
            Suite::enumerate("every-char", 256, every_char),
            Suite::enumerate("extremes", 32, extremes),
        ],
    );
    p.assumptions = &["whether a name is representable is decided with the Shift-JIS tables of encoding_rs", "nesting beyond 100 levels and name tables beyond 16 MiB may be refused"];
    p
}
