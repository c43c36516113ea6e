//! Stream wrappers: fault injection, throttling, deduplicating store for very large images.
use crate::engine::mix;
use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FaultMode {
    /// only the k-th operation fails
    Once,
    /// every operation from the k-th on fails
    Forever,
}

/// Fails the k-th operation (reads, writes, seeks and flushes are counted together).
pub struct FaultIo<T> {
    pub inner: T,
    pub ops: u64,
    pub at: u64,
    pub mode: FaultMode,
    pub kind: io::ErrorKind,
    pub hit: u64,
    /// a failing write first writes this many bytes (torn write)
    pub torn: usize,
    /// reads deliver at most this many bytes, so that a fault can hit the middle of a long transfer
    pub chunk: usize,
}

impl<T> FaultIo<T> {
    pub fn new(inner: T, at: u64, mode: FaultMode) -> Self {
        FaultIo { inner, ops: 0, at, mode, kind: io::ErrorKind::Other, hit: 0, torn: 0, chunk: usize::MAX }
    }
    fn trip(&mut self) -> Option<io::Error> {
        let k = self.ops;
        self.ops += 1;
        let f = match self.mode {
            FaultMode::Once => k == self.at,
            FaultMode::Forever => k >= self.at,
        };
        if f {
            self.hit += 1;
            return Some(io::Error::new(self.kind, "injected fault"));
        }
        None
    }
}

impl<T: Read> Read for FaultIo<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(e) = self.trip() {
            return Err(e);
        }
        let n = buf.len().min(self.chunk);
        self.inner.read(&mut buf[..n])
    }
}
impl<T: Write + Lossy> Write for FaultIo<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(e) = self.trip() {
            let n = self.torn.min(buf.len());
            let _ = self.inner.write_all(&buf[..n]);
            return Err(e);
        }
        self.inner.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(e) = self.trip() {
            self.inner.lose();
            return Err(e);
        }
        self.inner.flush()
    }
}
impl<T: Seek> Seek for FaultIo<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if let Some(e) = self.trip() {
            return Err(e);
        }
        self.inner.seek(p)
    }
}

/// What happens to data that was written but not flushed when a flush fails.
pub trait Lossy {
    fn lose(&mut self) {}
}
impl Lossy for MemFile {}

/// A file behind a write-back cache: what was written since the last successful flush is gone when a flush fails.
#[derive(Default)]
pub struct WriteBack {
    pub file: MemFile,
    /// length at the last flush, and what was overwritten since, oldest first
    len: usize,
    journal: Vec<(usize, Vec<u8>)>,
    /// whether a failing flush loses data
    pub lossy: bool,
}

impl WriteBack {
    pub fn new(lossy: bool) -> Self {
        WriteBack { lossy, ..Default::default() }
    }
    /// bytes that a flush still has to bring to the disk
    pub fn unflushed(&self) -> usize {
        self.file.data.len() - self.len + self.journal.iter().map(|j| j.1.len()).sum::<usize>()
    }
}
impl Lossy for WriteBack {
    fn lose(&mut self) {
        if self.lossy {
            for (off, old) in std::mem::take(&mut self.journal).into_iter().rev() {
                self.file.data[off..off + old.len()].copy_from_slice(&old);
            }
            self.file.data.truncate(self.len);
        }
    }
}
impl Read for WriteBack {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.file.read(buf)
    }
}
impl Write for WriteBack {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let a = (self.file.pos as usize).min(self.len);
        let b = (self.file.pos as usize + buf.len()).min(self.len);
        if a < b {
            self.journal.push((a, self.file.data[a..b].to_vec()));
        }
        self.file.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.journal.clear();
        self.len = self.file.data.len();
        Ok(())
    }
}
impl Seek for WriteBack {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.file.seek(p)
    }
}

/// Transfers only part of what was asked and reports interruptions, by a seeded schedule.
pub struct ThrottleIo<T> {
    pub inner: T,
    pub state: u64,
    /// largest transfer
    pub max: usize,
    /// probability of an interruption in 256ths
    pub intr: u64,
    pub short: u64,
    pub intrs: u64,
}

impl<T> ThrottleIo<T> {
    pub fn new(inner: T, seed: u64, max: usize, intr: u64) -> Self {
        ThrottleIo { inner, state: seed, max, intr, short: 0, intrs: 0 }
    }
    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(1);
        mix(self.state)
    }
    fn quota(&mut self, len: usize) -> io::Result<usize> {
        if self.next() % 256 < self.intr {
            self.intrs += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if len == 0 {
            return Ok(0);
        }
        let r = self.next();
        let n = match r % 4 {
            0 => 1 + (r >> 8) as usize % self.max,
            1 => self.max,
            2 => len,
            _ => 1 + (r >> 8) as usize % len,
        };
        // tiny transfers of huge buffers would never end
        let n = n.max(len / 64).max(1).min(len);
        if n < len {
            self.short += 1;
        }
        Ok(n)
    }
}

impl<T: Read> Read for ThrottleIo<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.quota(buf.len())?;
        self.inner.read(&mut buf[..n])
    }
}
impl<T: Write> Write for ThrottleIo<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.quota(buf.len())?;
        self.inner.write(&buf[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}
impl<T: Seek> Seek for ThrottleIo<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}

/// In-memory stream whose 2 MiB pages are shared when equal, so multi-GiB images of repetitive data fit in memory.
pub struct DedupStore {
    pub pages: HashMap<u64, Arc<Vec<u8>>>,
    pool: HashMap<u64, Arc<Vec<u8>>>,
    pub pos: u64,
    pub len: u64,
    base: u64,
}

// one encrypted block: blocks of zeros are all alike, however they are grouped and written
const PAGE: u64 = 0x8000;

impl DedupStore {
    /// pages start at base + k * 0x8000
    pub fn new(base: u64) -> Self {
        DedupStore { pages: HashMap::new(), pool: HashMap::new(), pos: 0, len: 0, base: PAGE - base % PAGE }
    }
    fn loc(&self, off: u64) -> (u64, usize) {
        let o = off + self.base;
        (o / PAGE, (o % PAGE) as usize)
    }
    pub fn read_at(&self, mut off: u64, mut buf: &mut [u8]) {
        while !buf.is_empty() {
            let (p, o) = self.loc(off);
            let n = buf.len().min(PAGE as usize - o);
            match self.pages.get(&p) {
                Some(d) => buf[..n].copy_from_slice(&d[o..o + n]),
                None => buf[..n].fill(0),
            }
            off += n as u64;
            buf = &mut buf[n..];
        }
    }
    pub fn to_vec(&self, off: u64, len: u64) -> Vec<u8> {
        let mut v = vec![0; len as usize];
        self.read_at(off, &mut v);
        v
    }
    fn intern(&mut self, v: Vec<u8>) -> Arc<Vec<u8>> {
        // sample-based key, verified by full comparison
        let mut h = 0u64;
        for i in (0..v.len()).step_by(127) {
            h = mix(h ^ v[i] as u64 ^ (i as u64) << 8);
        }
        if let Some(a) = self.pool.get(&h) {
            if **a == v {
                return a.clone();
            }
        }
        let a = Arc::new(v);
        self.pool.insert(h, a.clone());
        a
    }
}

impl Read for DedupStore {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        self.read_at(self.pos, &mut buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for DedupStore {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut rest = buf;
        while !rest.is_empty() {
            let (p, o) = self.loc(self.pos);
            let n = rest.len().min(PAGE as usize - o);
            let mut v = match self.pages.remove(&p) {
                Some(a) => Arc::try_unwrap(a).unwrap_or_else(|a| (*a).clone()),
                None => vec![0; PAGE as usize],
            };
            v[o..o + n].copy_from_slice(&rest[..n]);
            let a = if o + n == PAGE as usize { self.intern(v) } else { Arc::new(v) };
            self.pages.insert(p, a);
            self.pos += n as u64;
            rest = &rest[n..];
        }
        self.len = self.len.max(self.pos);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for DedupStore {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
            SeekFrom::End(o) => self.len as i128 + o as i128,
        };
        if n < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// In-memory file: like `Cursor<Vec<u8>>`, but an empty write beyond the end does not extend it.
#[derive(Clone, Default)]
pub struct MemFile {
    pub data: Vec<u8>,
    pub pos: u64,
}

impl MemFile {
    pub fn new(data: Vec<u8>) -> Self {
        MemFile { data, pos: 0 }
    }
}

impl Read for MemFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let a = self.pos.min(self.data.len() as u64) as usize;
        let n = buf.len().min(self.data.len() - a);
        buf[..n].copy_from_slice(&self.data[a..a + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for MemFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let a = self.pos as usize;
        if self.data.len() < a + buf.len() {
            if self.data.capacity() < a + buf.len() {
                self.data.reserve_exact((a + buf.len()).max(self.data.len() * 3 / 2) - self.data.len());
            }
            self.data.resize(a + buf.len(), 0);
        }
        self.data[a..a + buf.len()].copy_from_slice(buf);
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for MemFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
            SeekFrom::End(o) => self.data.len() as i128 + o as i128,
        };
        if n < 0 || n > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
