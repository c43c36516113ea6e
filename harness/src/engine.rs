//! Property engine: recorded choice sequences, parallel seeded search, shrinking, replay, evidence.
//!
//! Every generated value is derived from a sequence of bounded integer choices. In search mode the choices come
//! from a PRNG seeded by (VERIF_SEED, property, suite, case index); in replay mode they come from a file. Shrinking
//! edits the recorded sequence (delete, zero, lower) and re-runs the property, so any generator shrinks for free.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

enum Mode {
    Random(u64),
    Replay,
    Bytes,
}

/// Source of choices.
pub struct Src {
    mode: Mode,
    input: Vec<u64>,
    bytes: Vec<u8>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64, prefix: Vec<u64>) -> Self {
        Src { mode: Mode::Random(seed), input: prefix, bytes: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { mode: Mode::Replay, input: choices, bytes: vec![], pos: 0, rec: vec![] }
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        Src { mode: Mode::Bytes, input: vec![], bytes: b.to_vec(), pos: 0, rec: vec![] }
    }
    /// uniform in 0..n (n >= 1); 0 is the simplest value
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Random(state) => {
                if self.pos < self.input.len() {
                    let v = self.input[self.pos];
                    self.pos += 1;
                    v.min(n - 1)
                } else {
                    *state = state.wrapping_add(0x9E3779B97F4A7C15);
                    let r = mix(*state);
                    ((r as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Replay => {
                let v = self.input.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
            Mode::Bytes => {
                let w = if n <= 1 { 0 } else if n <= 0x100 { 1 } else if n <= 0x1_0000 { 2 } else if n <= 0x1_0000_0000 { 4 } else { 8 };
                let mut v = 0u64;
                for _ in 0..w {
                    v = (v << 8) | self.bytes.get(self.pos).copied().unwrap_or(0) as u64;
                    self.pos += 1;
                }
                v % n
            }
        };
        self.rec.push(v);
        if CHOICE_LOG_ON.load(Ordering::Relaxed) {
            log_choice(v);
        }
        v
    }
    /// inclusive range, simplest is lo
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        if lo == 0 && hi == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index by weight; index 0 is simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// integer of `bits` bits with edge bias
    pub fn int(&mut self, bits: u32) -> u64 {
        let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.weighted(&[3, 1, 1, 3]) {
            0 => self.below(256.min(max as u128 as u64).max(1)),
            1 => max - self.below(4).min(max),
            2 => {
                let b = self.below(bits as u64) as u32;
                let base = 1u64 << b;
                match self.below(3) {
                    0 => base,
                    1 => base - 1,
                    _ => base.saturating_add(1).min(max),
                }
            }
            _ => self.u64() & max,
        }
    }
    /// n pseudo-random bytes from a single seed choice (0 = all zero, 1 = all ones)
    pub fn fill(&mut self, out: &mut [u8]) {
        let seed = self.below(1 << 20);
        match seed {
            0 => out.fill(0),
            1 => out.fill(0xff),
            _ => {
                for (i, c) in out.chunks_mut(8).enumerate() {
                    let w = mix(seed.wrapping_mul(0x1234567).wrapping_add(i as u64)).to_le_bytes();
                    c.copy_from_slice(&w[..c.len()]);
                }
            }
        }
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        self.fill(&mut a);
        a
    }
}

static CHOICE_LOG_ON: AtomicBool = AtomicBool::new(false);
static CHOICE_LOG: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Stream every choice to a replay file as it is drawn (used to replay cases that kill the process).
pub fn set_choice_log(path: &Path, prop: &str, suite: &str) {
    let mut f = std::fs::File::create(path).unwrap();
    write!(f, "property: {prop}\nsuite: {suite}\nchoices:").unwrap();
    *CHOICE_LOG.lock().unwrap() = Some(f);
    CHOICE_LOG_ON.store(true, Ordering::Relaxed);
}

fn log_choice(v: u64) {
    if let Some(f) = CHOICE_LOG.lock().unwrap().as_mut() {
        let _ = write!(f, " {v}");
    }
}

/// Per-case context handed to a property.
pub struct Ctx<'a> {
    pub src: Src,
    pub scratch: &'a Path,
    pub env: &'a Env,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub desc: Vec<String>,
    pub ext: &'a mut Ext,
    pub subcases: u64,
}

impl<'a> Ctx<'a> {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn describe(&mut self, s: impl Into<String>) {
        let mut s: String = s.into();
        if s.len() > 1500 {
            let mut cut = 1500;
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            s.truncate(cut);
            s.push_str("...");
        }
        self.desc.push(s);
    }
    /// an empty directory private to this case
    pub fn fresh_dir(&mut self) -> PathBuf {
        let d = self.scratch.join("case");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}

/// Lazily created helpers that live as long as a worker thread.
#[derive(Default)]
pub struct Ext {
    pub py: Option<crate::pyworker::PyWorker>,
    pub py_unpriv: Option<crate::pyworker::PyWorker>,
}

/// Paths of the build products of /repo used by process-level properties.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub iso_tool: PathBuf,
    pub py_module_dir: PathBuf,
    pub py_worker: PathBuf,
}

pub type CaseFn = fn(&mut Ctx) -> Result<(), String>;

#[derive(Clone)]
pub struct Suite {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// the case index is forced as the first choice: a complete enumeration of `quick` = `thorough` directed cases
    pub enumerate: bool,
    pub threads: usize,
    pub f: CaseFn,
}

impl Suite {
    pub fn new(name: &'static str, quick: usize, thorough: usize, f: CaseFn) -> Self {
        Suite { name, quick, thorough, enumerate: false, threads: 8, f }
    }
    pub fn enumerate(name: &'static str, n: usize, f: CaseFn) -> Self {
        Suite { name, quick: n, thorough: n, enumerate: true, threads: 8, f }
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub suites: Vec<Suite>,
    /// probes for recorded findings: (finding id, description, probe)
    pub known: Vec<(&'static str, &'static str, CaseFn)>,
    pub stack: usize,
    pub address_space: Option<u64>,
}

impl Property {
    pub fn new(id: &'static str, rule: &'static str, suites: Vec<Suite>) -> Self {
        Property { id, rule, assumptions: &[], level: "exploration", suites, known: vec![], stack: 256 << 20, address_space: Some(20 << 30) }
    }
}

pub const CASE_LIMIT_MS: u64 = 200_000;
pub const HANG_CODE: i32 = 77;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("panic {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {} at {}", msg, loc)));
    }));
}

/// message of the panic caught last on this thread
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

pub struct Outcome {
    pub result: Result<(), String>,
    pub rec: Vec<u64>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub desc: Vec<String>,
    pub subcases: u64,
}

pub fn run_case(f: CaseFn, src: Src, scratch: &Path, env: &Env, ext: &mut Ext) -> Outcome {
    let mut ctx = Ctx { src, scratch, env, labels: vec![], nontrivial: false, desc: vec![], ext, subcases: 1 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
    let result = match r {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    };
    Outcome { result, rec: std::mem::take(&mut ctx.src.rec), labels: ctx.labels, nontrivial: ctx.nontrivial, desc: ctx.desc, subcases: ctx.subcases }
}

fn hash_rec(suite: usize, rec: &[u64]) -> u64 {
    let mut h = mix(suite as u64 + 77);
    for v in rec {
        h = mix(h ^ *v);
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, suite: &str, idx: usize) -> u64 {
    mix(mix(mix(seed ^ hash_str(prop)) ^ hash_str(suite)) ^ idx as u64)
}

pub fn case_src(seed: u64, p: &Property, s: &Suite, idx: usize) -> Src {
    let prefix = if s.enumerate { vec![idx as u64] } else { vec![] };
    Src::random(case_seed(seed, p.id, s.name, idx), prefix)
}

pub struct Failure {
    pub suite: usize,
    pub case: usize,
    pub rec: Vec<u64>,
    pub msg: String,
    pub desc: Vec<String>,
}

/// Run the whole search in this process. Writes a result file; used by the child process.
pub struct RunResult {
    pub failure: Option<Failure>,
    pub evaluations: u64,
    pub subcases: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub per_suite: Vec<(String, u64)>,
    pub samples: Vec<(String, String)>,
    pub known: Vec<(String, String, Result<(), String>)>,
}

pub fn free_bytes(p: &Path) -> u64 {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let mut s: libc::statvfs = unsafe { std::mem::zeroed() };
    if unsafe { libc::statvfs(c.as_ptr(), &mut s) } == 0 {
        s.f_bavail as u64 * s.f_frsize as u64
    } else {
        0
    }
}

pub fn scratch_root() -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        let p = Path::new(base);
        if p.is_dir() && (base == "/tmp" || free_bytes(p) > 6 << 30) {
            let d = p.join(format!("vharness-{}", std::process::id()));
            if std::fs::create_dir_all(&d).is_ok() {
                return d;
            }
        }
    }
    let d = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn search(p: &Property, thorough: bool, seed: u64, env: &Env, scratch: &Path, journal_dir: &Path, scale: f64) -> RunResult {
    let labels: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<(usize, usize, bool, String)>> = Mutex::new(vec![]);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let evals = AtomicU64::new(0);
    let subcases = AtomicU64::new(0);
    let mut per_suite = vec![];
    let mut known = vec![];
    // recorded findings first
    for (id, desc, f) in &p.known {
        let d = scratch.join("known");
        std::fs::create_dir_all(&d).unwrap();
        let f = *f;
        let r = std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(p.stack).spawn_scoped(sc, || {
                let mut ext = Ext::default();
                run_case(f, Src::replay(vec![]), &d, env, &mut ext).result
            }).unwrap().join().unwrap()
        });
        known.push((id.to_string(), desc.to_string(), r));
    }
    for (si, s) in p.suites.iter().enumerate() {
        let n0 = if thorough { s.thorough } else { s.quick };
        let n = if s.enumerate { n0 } else { ((n0 as f64 * scale).ceil() as usize).max(if n0 == 0 { 0 } else { 1 }) };
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let t0 = Instant::now();
        let workers = s.threads.min(n.max(1));
        // a case that runs far longer than any should (ms since t0 at which each worker's case started, 0 = idle)
        let started: Vec<AtomicU64> = (0..workers).map(|_| AtomicU64::new(0)).collect();
        let idle = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            {
                let (started, idle) = (&started, &idle);
                sc.spawn(move || {
                    while idle.load(Ordering::Relaxed) < workers {
                        std::thread::sleep(std::time::Duration::from_millis(5));
                        for (w, a) in started.iter().enumerate() {
                            let a = a.load(Ordering::Relaxed);
                            if a != 0 && (t0.elapsed().as_millis() as u64).saturating_sub(a) > if thorough { 4 * CASE_LIMIT_MS } else { CASE_LIMIT_MS } {
                                let _ = std::fs::write(journal_dir.join("hang"), w.to_string());
                                unsafe { libc::_exit(HANG_CODE) };
                            }
                        }
                    }
                });
            }
            for w in 0..workers {
                let (next, stop, failure, labels, samples, distinct, evals, subcases, done) =
                    (&next, &stop, &failure, &labels, &samples, &distinct, &evals, &subcases, &done);
                let (started, idle) = (&started, &idle);
                std::thread::Builder::new()
                    .stack_size(p.stack)
                    .spawn_scoped(sc, move || {
                        let wd = scratch.join(format!("w{w}"));
                        std::fs::create_dir_all(&wd).unwrap();
                        let jf = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(journal_dir.join(format!("j{w}"))).unwrap();
                        let mut ext = Ext::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            use std::os::unix::fs::FileExt;
                            let _ = jf.write_all_at(&[(si as u64).to_le_bytes(), (i as u64).to_le_bytes()].concat(), 0);
                            started[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let o = run_case(s.f, case_src(seed, p, s, i), &wd, env, &mut ext);
                            started[w].store(0, Ordering::Relaxed);
                            evals.fetch_add(1, Ordering::Relaxed);
                            subcases.fetch_add(o.subcases, Ordering::Relaxed);
                            done.fetch_add(1, Ordering::Relaxed);
                            {
                                let mut l = labels.lock().unwrap();
                                for x in &o.labels {
                                    *l.entry(x.to_string()).or_default() += 1;
                                }
                            }
                            if o.nontrivial {
                                distinct.lock().unwrap().insert(hash_rec(si, &o.rec));
                            }
                            if i < 400 && !o.desc.is_empty() {
                                samples.lock().unwrap().push((si, i, o.nontrivial, o.desc.join("; ")));
                            }
                            if let Err(msg) = o.result {
                                let mut f = failure.lock().unwrap();
                                let better = match &*f {
                                    None => true,
                                    Some(old) => (old.suite, old.case) > (si, i),
                                };
                                if better {
                                    *f = Some(Failure { suite: si, case: i, rec: o.rec, msg, desc: o.desc });
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        let _ = jf.set_len(0);
                        drop(ext);
                        idle.fetch_add(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
        });
        per_suite.push((s.name.to_string(), done.load(Ordering::Relaxed)));
        if std::env::var_os("VH_TIMES").is_some() {
            eprintln!("suite {} {} cases {:.2}s", s.name, done.load(Ordering::Relaxed), t0.elapsed().as_secs_f64());
        }
        if failure.lock().unwrap().is_some() {
            break;
        }
    }
    let mut sm = samples.into_inner().unwrap();
    // prefer non-trivial samples, two per suite
    sm.sort_by_key(|(s, i, nt, _)| (*s, !*nt, *i));
    let mut out = vec![];
    let mut last = (usize::MAX, 0);
    for (s, _i, _nt, d) in sm {
        if last.0 != s {
            last = (s, 0);
        }
        if last.1 < 2 {
            out.push((p.suites[s].name.to_string(), d));
            last.1 += 1;
        }
    }
    RunResult {
        failure: failure.into_inner().unwrap(),
        evaluations: evals.into_inner(),
        subcases: subcases.into_inner(),
        distinct_nontrivial: distinct.into_inner().unwrap().len() as u64,
        labels: labels.into_inner().unwrap(),
        per_suite,
        samples: out,
        known,
    }
}

/// Generic shrinker over choice sequences. `eval` returns Some((normalised sequence, message)) when it still fails.
pub fn shrink(
    start: Vec<u64>,
    msg: String,
    max_evals: usize,
    max_secs: f64,
    mut eval: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut bmsg = msg;
    let mut evals = 0usize;
    let better = |a: &[u64], b: &[u64]| -> bool {
        if a.len() != b.len() {
            return a.len() < b.len();
        }
        a < b
    };
    let out = |evals: usize| evals >= max_evals || t0.elapsed().as_secs_f64() > max_secs;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            evals += 1;
            match eval(&cand) {
                Some((norm, m)) => {
                    let norm = if better(&norm, &cand) { norm } else { cand };
                    if better(&norm, &best) {
                        best = norm;
                        bmsg = m;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if out(evals) {
                    return (best, bmsg, evals);
                }
                if i < best.len() {
                    let end = (i + size).min(best.len());
                    let mut c = best.clone();
                    c.drain(i..end);
                    attempt!(c);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 8;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if out(evals) {
                    return (best, bmsg, evals);
                }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..end].fill(0);
                    attempt!(c);
                }
                i += size;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                if out(evals) {
                    return (best, bmsg, evals);
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, bmsg, evals);
        }
    }
}

pub struct Replay {
    pub property: String,
    pub suite: String,
    pub choices: Vec<u64>,
    pub message: String,
}

pub fn write_replay(path: &Path, prop: &str, suite: &str, rec: &[u64], msg: &str, desc: &[String], seed: u64) -> std::io::Result<()> {
    let mut f = std::fs::File::create(path)?;
    writeln!(f, "# replay with: bash /verif/replay.sh {}", path.display())?;
    writeln!(f, "property: {prop}")?;
    writeln!(f, "suite: {suite}")?;
    writeln!(f, "seed: {seed}")?;
    writeln!(f, "choices: {}", rec.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "))?;
    writeln!(f, "message: {}", msg.replace('\n', " | "))?;
    for d in desc {
        writeln!(f, "case: {}", d.replace('\n', " | "))?;
    }
    Ok(())
}

pub fn read_replay(path: &Path) -> std::io::Result<Replay> {
    let mut s = String::new();
    std::fs::File::open(path)?.read_to_string(&mut s)?;
    let mut r = Replay { property: String::new(), suite: String::new(), choices: vec![], message: String::new() };
    for l in s.lines() {
        if let Some(v) = l.strip_prefix("property: ") {
            r.property = v.to_string();
        } else if let Some(v) = l.strip_prefix("suite: ") {
            r.suite = v.to_string();
        } else if let Some(v) = l.strip_prefix("choices:") {
            r.choices = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        } else if let Some(v) = l.strip_prefix("message: ") {
            r.message = v.to_string();
        }
    }
    Ok(r)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
