//! Compact descriptions of file contents: random access, unique per seed.
use crate::engine::mix;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Blob {
    pub len: u64,
    pub kind: u8,
    pub seed: u64,
}

impl Blob {
    pub fn new(len: u64, kind: u8, seed: u64) -> Self {
        Blob { len, kind, seed }
    }
    /// bytes at off..off+out.len() (the caller stays inside len)
    pub fn fill(&self, off: u64, out: &mut [u8]) {
        match self.kind {
            1 => out.fill(0),
            2 => out.fill((self.seed as u8) | 1),
            // same content in every 0x400 chunk: data placed in a wrong chunk hashes the same, offsets inside matter
            3 => {
                for (i, b) in out.iter_mut().enumerate() {
                    let p = (off + i as u64) % 0x400;
                    *b = (p as u8).wrapping_mul(7).wrapping_add((p >> 8) as u8).wrapping_add(self.seed as u8);
                }
            }
            // ends in zeroes
            4 => {
                let tail = self.len - (self.len * ((self.seed >> 3) % 9) / 8).min(self.len);
                let keep = tail;
                Blob { len: self.len, kind: 0, seed: self.seed }.fill(off, out);
                if off + out.len() as u64 > keep {
                    let a = keep.saturating_sub(off) as usize;
                    out[a..].fill(0);
                }
            }
            _ => {
                let mut i = 0usize;
                let base = mix(self.seed ^ 0xABCDEF);
                while i < out.len() {
                    let p = off + i as u64;
                    let w = mix(base.wrapping_add(p / 8)).to_le_bytes();
                    let o = (p % 8) as usize;
                    let n = (8 - o).min(out.len() - i);
                    out[i..i + n].copy_from_slice(&w[o..o + n]);
                    i += n;
                }
            }
        }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0; self.len as usize];
        self.fill(0, &mut v);
        v
    }
    pub fn slice(&self, off: u64, len: u64) -> Vec<u8> {
        let end = (off + len).min(self.len);
        let off = off.min(end);
        let mut v = vec![0; (end - off) as usize];
        self.fill(off, &mut v);
        v
    }
    /// compare without allocating the whole content
    pub fn matches(&self, data: &[u8]) -> Result<(), String> {
        if data.len() as u64 != self.len {
            return Err(format!("length {:#x} instead of {:#x}", data.len(), self.len));
        }
        let mut buf = vec![0u8; 0x10000.min(data.len())];
        let mut off = 0usize;
        while off < data.len() {
            let n = buf.len().min(data.len() - off);
            self.fill(off as u64, &mut buf[..n]);
            if buf[..n] != data[off..off + n] {
                let i = (0..n).find(|i| buf[*i] != data[off + i]).unwrap();
                return Err(format!("differs at offset {:#x} (of {:#x}): {:#04x} instead of {:#04x}", off + i, self.len, data[off + i], buf[i]));
            }
            off += n;
        }
        Ok(())
    }
}
