//! A Python process that drives the extension module.
use crate::engine::{Ctx, Env};
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct PyWorker {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl PyWorker {
    pub fn start(env: &Env, tmp: &Path, uid: Option<u32>) -> Result<Self, String> {
        let mut c = Command::new("/usr/bin/python3.12");
        c.arg("-B").arg(&env.py_worker).arg(&env.py_module_dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env("TMPDIR", tmp).env("LC_ALL", "C.UTF-8").current_dir("/");
        if let Some(u) = uid {
            use std::os::unix::process::CommandExt;
            c.uid(u).gid(u);
        }
        let mut child = c.spawn().map_err(|e| format!("HARNESS: cannot start python: {e}"))?;
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Ok(PyWorker { child, stdin, stdout })
    }
    pub fn call(&mut self, ops: &Value) -> Result<Vec<Value>, String> {
        let line = serde_json::to_string(ops).unwrap();
        let r = (|| -> std::io::Result<String> {
            self.stdin.write_all(line.as_bytes())?;
            self.stdin.write_all(b"\n")?;
            self.stdin.flush()?;
            let mut s = String::new();
            self.stdout.read_line(&mut s)?;
            Ok(s)
        })();
        match r {
            Ok(s) if !s.is_empty() => {
                let v: Value = serde_json::from_str(&s).map_err(|e| format!("HARNESS: bad reply: {e}"))?;
                Ok(v.as_array().cloned().unwrap_or_default())
            }
            _ => {
                let st = self.child.wait();
                Err(format!("the Python process died: {st:?}"))
            }
        }
    }
}

impl Drop for PyWorker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Run operations in this worker thread's Python process; a PanicException or a dead process is a failure.
pub fn py(ctx: &mut Ctx, ops: Value) -> Result<Vec<Value>, String> {
    if ctx.ext.py.is_none() {
        ctx.ext.py = Some(PyWorker::start(ctx.env, ctx.scratch, None)?);
    }
    let r = ctx.ext.py.as_mut().unwrap().call(&ops);
    finish(r, &mut ctx.ext.py)
}

/// The same as an unprivileged user.
pub fn py_unpriv(ctx: &mut Ctx, ops: Value) -> Result<Vec<Value>, String> {
    if ctx.ext.py_unpriv.is_none() {
        // a private readable copy of the module and script
        let d = ctx.scratch.join("unpriv");
        std::fs::create_dir_all(&d).map_err(|e| format!("HARNESS: {e}"))?;
        let mut env = ctx.env.clone();
        std::fs::copy(&env.py_worker, d.join("worker.py")).map_err(|e| format!("HARNESS: {e}"))?;
        std::fs::copy(env.py_module_dir.join("disc_riider_py.so"), d.join("disc_riider_py.so")).map_err(|e| format!("HARNESS: {e}"))?;
        let t = d.join("tmp");
        std::fs::create_dir_all(&t).unwrap();
        chown(&t, 65534);
        env.py_worker = d.join("worker.py");
        env.py_module_dir = d.clone();
        ctx.ext.py_unpriv = Some(PyWorker::start(&env, &t, Some(65534))?);
    }
    let r = ctx.ext.py_unpriv.as_mut().unwrap().call(&ops);
    finish(r, &mut ctx.ext.py_unpriv)
}

fn finish(r: Result<Vec<Value>, String>, slot: &mut Option<PyWorker>) -> Result<Vec<Value>, String> {
    match r {
        Ok(v) => {
            for (i, x) in v.iter().enumerate() {
                if x["type"] == "PanicException" {
                    return Err(format!("operation {i} panics: {}", x["err"]));
                }
            }
            Ok(v)
        }
        Err(e) => {
            *slot = None;
            Err(e)
        }
    }
}

pub fn chown(p: &Path, uid: u32) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe {
        libc::chown(c.as_ptr(), uid, uid);
    }
}

pub fn ok(v: &Value) -> bool {
    v["ok"] == true
}

pub fn expect_ok(v: &Value, what: &str) -> Result<(), String> {
    if ok(v) {
        Ok(())
    } else {
        Err(format!("{what} raised {}: {}", v["type"], v["err"]))
    }
}
