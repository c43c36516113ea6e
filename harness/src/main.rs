use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vharness::engine::*;
use vharness::props;

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn env() -> Env {
    let v = verif_dir();
    Env {
        iso_tool: std::env::var_os("VH_ISO_TOOL").map(PathBuf::from).unwrap_or_else(|| v.join("target/repo/release/iso-tool")),
        py_module_dir: std::env::var_os("VH_PY_DIR").map(PathBuf::from).unwrap_or_else(|| v.join("target/py")),
        py_worker: v.join("py/worker.py"),
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

fn limit_address_space(bytes: Option<u64>) {
    if let Some(b) = bytes {
        let r = libc::rlimit { rlim_cur: b, rlim_max: b };
        unsafe {
            libc::setrlimit(libc::RLIMIT_AS, &r);
        }
    }
    // no core files
    let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}

fn known_listed(prop: &str, id: &str) -> bool {
    let p = verif_dir().join("known_findings.txt");
    std::fs::read_to_string(p).unwrap_or_default().lines().any(|l| l.starts_with("known:") && l.contains(&format!("property={prop} ")) && l.contains(&format!("id={id} ")))
}

fn write_evidence(p: &Property, tier: &str, seed: u64, wall: f64, r: Option<&RunResult>, violations: u32, crashed_at: Option<u64>) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", json_str(p.id), json_str(tier), seed, json_str(p.level)));
    o.push_str(" \"coverage\": {\n");
    if let Some(r) = r {
        o.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", r.evaluations, r.distinct_nontrivial));
        if r.subcases != r.evaluations {
            o.push_str(&format!("  \"runs_of_the_code_including_fault_points\": {},\n", r.subcases));
        }
        o.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
        o.push_str("  \"suites\": {");
        o.push_str(&r.per_suite.iter().map(|(n, c)| format!("{}: {}", json_str(n), c)).collect::<Vec<_>>().join(", "));
        o.push_str("},\n  \"classes\": {");
        o.push_str(&r.labels.iter().map(|(n, c)| format!("{}: {}", json_str(n), c)).collect::<Vec<_>>().join(", "));
        o.push_str("},\n  \"samples\": [\n");
        o.push_str(&r.samples.iter().map(|(s, d)| format!("   {{\"suite\": {}, \"case\": {}}}", json_str(s), json_str(d))).collect::<Vec<_>>().join(",\n"));
        o.push_str("\n  ]\n");
    } else {
        o.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": 0,\n  \"rule\": {},\n  \"samples\": [\"the code under test killed the worker process; see the replay file\"]\n", crashed_at.unwrap_or(0), json_str(p.rule)));
    }
    o.push_str(" },\n");
    o.push_str(&format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations));
    std::fs::write(dir.join(format!("{}.json", p.id)), o).unwrap();
}

fn replay_path(prop: &str, seed: u64, suite: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{prop}-{suite}-seed{seed}.txt"))
}

fn on_big_thread<T: Send + 'static>(stack: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(stack).spawn(f).unwrap().join().unwrap()
}

fn child(id: &str, tier: &str, seed: u64, out: &Path) -> i32 {
    let p = props::get(id).expect("property");
    limit_address_space(p.address_space);
    install_panic_hook();
    let t0 = Instant::now();
    let scratch = out.join("scratch");
    std::fs::create_dir_all(&scratch).unwrap();
    let e = env();
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let r = search(&p, tier == "thorough", seed, &e, &scratch, out, scale);
    let mut lines = vec![];
    let mut code = 0;
    for (kid, desc, res) in &r.known {
        if let Err(msg) = res {
            if known_listed(p.id, kid) {
                lines.push(format!("KNOWN-FINDING: property={} {} ({})", p.id, desc, msg.replace('\n', " | ")));
            } else {
                let rp = replay_path(p.id, seed, &format!("known-{kid}"));
                let _ = write_replay(&rp, p.id, &format!("known-{kid}"), &[], msg, &[desc.clone()], seed);
                lines.push(format!("VIOLATION property={} replay={}", p.id, rp.display()));
                lines.push(format!("  {msg}"));
                code = 1;
            }
        }
    }
    let mut violations = code as u32;
    if let Some(f) = &r.failure {
        let s = p.suites[f.suite].clone();
        let ev = e.clone();
        let sd = scratch.join("shrink");
        std::fs::create_dir_all(&sd).unwrap();
        let rec = f.rec.clone();
        let msg = f.msg.clone();
        let (best, bmsg, desc, evals) = on_big_thread(p.stack, move || {
            let mut ext = Ext::default();
            let (best, bmsg, evals) = shrink(rec, msg, 3000, 40.0, |c| {
                let o = run_case(s.f, Src::replay(c.to_vec()), &sd, &ev, &mut ext);
                match o.result {
                    Err(m) => Some((o.rec, m)),
                    Ok(()) => None,
                }
            });
            let o = run_case(s.f, Src::replay(best.clone()), &sd, &ev, &mut ext);
            (best, o.result.err().unwrap_or(bmsg), o.desc, evals)
        });
        let rp = replay_path(p.id, seed, p.suites[f.suite].name);
        let _ = write_replay(&rp, p.id, p.suites[f.suite].name, &best, &bmsg, &desc, seed);
        if bmsg.contains("HARNESS:") && f.msg.contains("HARNESS:") {
            // the check itself could not work: no verdict
            lines.push(format!("ERROR in the check of {}: {}", p.id, f.msg));
            std::fs::write(out.join("lines.txt"), lines.join("\n") + "\n").unwrap();
            return 2;
        }
        lines.push(format!("VIOLATION property={} replay={}", p.id, rp.display()));
        lines.push(format!("  suite {} case {} (shrunk in {} runs): {}", p.suites[f.suite].name, f.case, evals, bmsg.chars().take(600).collect::<String>()));
        for d in &desc {
            lines.push(format!("  case: {}", d.chars().take(600).collect::<String>()));
        }
        lines.push(format!("  original: {}", f.msg.chars().take(300).collect::<String>()));
        violations += 1;
        code = 1;
    }
    write_evidence(&p, tier, seed, t0.elapsed().as_secs_f64(), Some(&r), violations, None);
    lines.push(format!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1}s",
        p.id, tier, r.evaluations, r.distinct_nontrivial, t0.elapsed().as_secs_f64()
    ));
    std::fs::write(out.join("lines.txt"), lines.join("\n") + "\n").unwrap();
    code
}

/// run a command with a time limit; Ok(status) or Err on timeout
fn run_limited(mut c: Command, secs: u64) -> Result<std::process::ExitStatus, ()> {
    let mut ch = c.spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Ok(s);
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn self_cmd(args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).stdout(Stdio::null()).stdin(Stdio::null());
    if std::env::var_os("VH_TIMES").is_none() && std::env::var_os("VH_TRACE").is_none() {
        c.stderr(Stdio::null());
    }
    c
}

fn crashed(s: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(sig) if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig) => Some(sig),
        _ => None,
    }
}

fn run(id: &str, tier: &str) -> i32 {
    let Some(p) = props::get(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed = seed();
    let out = scratch_root();
    let t0 = Instant::now();
    let limit = if tier == "thorough" { 6 * 3600 } else { 840 };
    let st = run_limited(self_cmd(&["child", id, tier, &seed.to_string(), out.to_str().unwrap()]), limit);
    let code = match st {
        Err(()) => {
            println!("{id}: time limit reached, inconclusive");
            3
        }
        Ok(s) if matches!(s.code(), Some(0 | 1 | 2)) => {
            print!("{}", std::fs::read_to_string(out.join("lines.txt")).unwrap_or_default());
            s.code().unwrap()
        }
        Ok(s) if s.code() == Some(HANG_CODE) => {
            let w = std::fs::read_to_string(out.join("hang")).unwrap_or_default();
            let b = std::fs::read(out.join(format!("j{w}"))).unwrap_or_default();
            if b.len() < 16 {
                println!("{id}: a case does not end, but it is not known which");
                2
            } else {
                let si = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
                let ci = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
                let f = out.join("one.txt");
                let c = self_cmd(&["one", id, &si.to_string(), &ci.to_string(), &seed.to_string(), f.to_str().unwrap()]);
                let limit = if tier == "thorough" { 4 } else { 1 } * CASE_LIMIT_MS / 1000;
                match run_limited(c, limit) {
                    Ok(s) => {
                        println!("{id}: case {ci} of suite {} took too long once, but ends alone: {s:?}", p.suites[si].name);
                        2
                    }
                    Err(()) => {
                        let rec = read_replay(&f).map(|r| r.choices).unwrap_or_default();
                        let rp = replay_path(id, seed, p.suites[si].name);
                        let msg = format!("the operation does not end within {limit} s");
                        let _ = write_replay(&rp, id, p.suites[si].name, &rec, &msg, &[format!("case {ci}")], seed);
                        println!("VIOLATION property={id} replay={}", rp.display());
                        println!("  {msg}");
                        write_evidence(&p, tier, seed, t0.elapsed().as_secs_f64(), None, 1, Some(ci as u64));
                        1
                    }
                }
            }
        }
        Ok(s) => match crashed(&s) {
            None => {
                println!("{id}: worker ended abnormally: {s:?}");
                2
            }
            Some(sig) => {
                // find which in-flight case kills the process
                let mut found = None;
                let mut count = 0;
                for w in 0..64 {
                    let Ok(b) = std::fs::read(out.join(format!("j{w}"))) else { continue };
                    if b.len() < 16 {
                        continue;
                    }
                    let si = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
                    let ci = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
                    count = count.max(ci as u64);
                    if found.is_some() {
                        continue;
                    }
                    let f = out.join("one.txt");
                    let c = self_cmd(&["one", id, &si.to_string(), &ci.to_string(), &seed.to_string(), f.to_str().unwrap()]);
                    if let Ok(s2) = run_limited(c, 120) {
                        if crashed(&s2).is_some() {
                            found = Some((si, ci));
                        }
                    }
                }
                match found {
                    None => {
                        println!("{id}: worker was killed by signal {sig} but no single case reproduces it");
                        2
                    }
                    Some((si, ci)) => {
                        // the choices actually drawn before the crash are not known: regenerate by running the
                        // generator with the same seed and stream the choices to a file from inside the process
                        let f = out.join("one.txt");
                        let rec = read_replay(&f).map(|r| r.choices).unwrap_or_default();
                        let suite = p.suites[si].name;
                        let rp = replay_path(id, seed, suite);
                        let msg = format!("the process is killed by signal {sig} (stack overflow, abort or memory fault)");
                        let eval_file = out.join("eval.txt");
                        let (best, _, _) = shrink(rec, msg.clone(), 400, 60.0, |c| {
                            let _ = write_replay(&eval_file, id, suite, c, "", &[], seed);
                            let cmd = self_cmd(&["eval", eval_file.to_str().unwrap()]);
                            match run_limited(cmd, 60) {
                                Ok(s) if crashed(&s).is_some() => Some((c.to_vec(), msg.clone())),
                                _ => None,
                            }
                        });
                        let _ = write_replay(&rp, id, suite, &best, &msg, &[format!("suite {suite} case {ci}")], seed);
                        println!("VIOLATION property={id} replay={}", rp.display());
                        println!("  {msg}");
                        write_evidence(&p, tier, seed, t0.elapsed().as_secs_f64(), None, 1, Some(count));
                        1
                    }
                }
            }
        },
    };
    let _ = std::fs::remove_dir_all(&out);
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], &a[3]),
        Some("child") => child(&a[2], &a[3], a[4].parse().unwrap(), Path::new(&a[5])),
        Some("one") => {
            // run a single generated case, first recording its choices
            let p = props::get(&a[2]).unwrap();
            let s = p.suites[a[3].parse::<usize>().unwrap()].clone();
            let (ci, seed): (usize, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            limit_address_space(p.address_space);
            install_panic_hook();
            let src = case_src(seed, &p, &s, ci);
            let f = PathBuf::from(&a[6]);
            let e = env();
            let id = p.id;
            vharness::engine::set_choice_log(&f, id, s.name);
            on_big_thread(p.stack, move || {
                let d = scratch_root();
                let mut ext = Ext::default();
                let o = run_case(s.f, src, &d, &e, &mut ext);
                drop(ext);
                let _ = std::fs::remove_dir_all(&d);
                if o.result.is_err() { 1 } else { 0 }
            })
        }
        Some("eval") | Some("replay") => {
            let r = read_replay(Path::new(&a[2])).expect("replay file");
            let p = props::get(&r.property).expect("property");
            limit_address_space(p.address_space);
            install_panic_hook();
            let e = env();
            let f = if let Some(k) = r.suite.strip_prefix("known-") {
                p.known.iter().find(|x| x.0 == k).expect("finding").2
            } else {
                p.suites.iter().find(|s| s.name == r.suite).expect("suite").f
            };
            let o = on_big_thread(p.stack, move || {
                let d = scratch_root();
                let mut ext = Ext::default();
                let o = run_case(f, Src::replay(r.choices), &d, &e, &mut ext);
                drop(ext);
                let _ = std::fs::remove_dir_all(&d);
                o
            });
            for d in &o.desc {
                println!("case: {d}");
            }
            match o.result {
                Ok(()) => {
                    println!("passes");
                    0
                }
                Err(m) => {
                    println!("FAILS: {m}");
                    1
                }
            }
        }
        Some("list") => {
            for id in props::ids() {
                println!("{id}");
            }
            0
        }
        _ => {
            eprintln!("usage: vharness run <ID> <quick|thorough> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
