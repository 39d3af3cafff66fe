//! An in-memory disc: a fixed-capacity byte array with a length, plus fault injection.
#![allow(dead_code)]
use crate::sv;
use std::io::{self, Read, Seek, SeekFrom, Write};

pub struct Disk {
    pub data: Vec<u8>,
    pub len: u64,
    pub pos: u64,
    /// number of operations performed
    pub ops: u64,
    /// the operation with this number fails (u64::MAX: none)
    pub fail_at: u64,
    pub failed: bool,
    /// largest number of bytes a single read/write call transfers
    pub chunk: u64,
    pub lo: u64,
    pub hi: u64,
    /// a read that cannot be satisfied completely gives nothing (same as a short read for those who read exactly)
    pub all_or_nothing: bool,
    /// the operation that fails is a write that transfers nothing, if it is a write
    pub full: bool,
}

impl Disk {
    pub fn new(cap: usize) -> Disk {
        Disk { data: vec![0; cap], len: 0, pos: 0, ops: 0, fail_at: u64::MAX, failed: false, chunk: u64::MAX, lo: u64::MAX, hi: 0, all_or_nothing: false, full: false }
    }
    pub fn from(data: Vec<u8>) -> Disk {
        let len = data.len() as u64;
        Disk { data, len, pos: 0, ops: 0, fail_at: u64::MAX, failed: false, chunk: u64::MAX, lo: u64::MAX, hi: 0, all_or_nothing: false, full: false }
    }
    fn tick(&mut self) -> io::Result<()> {
        let k = self.ops;
        self.ops += 1;
        if k == self.fail_at {
            self.failed = true;
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        Ok(())
    }
}
/// big transfers (whole groups) are followed position by position
fn place(pos: u64, n: usize) -> u64 {
    if n >= 0x8000 {
        return sv::concrete(pos);
    }
    pos
}
impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.tick()?;
        self.pos = place(self.pos, buf.len());
        let left = self.len.saturating_sub(self.pos);
        if self.all_or_nothing && left < buf.len() as u64 {
            return Ok(0);
        }
        let n = if self.all_or_nothing { buf.len() as u64 } else { left.min(buf.len() as u64).min(self.chunk) };
        if n == 0 {
            return Ok(0);
        }
        let p = self.pos as usize;
        buf[..n as usize].copy_from_slice(&self.data[p..p + n as usize]);
        self.pos += n;
        Ok(n as usize)
    }
}
impl Write for Disk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Err(e) = self.tick() {
            return if self.full { Ok(0) } else { Err(e) };
        }
        self.pos = place(self.pos, buf.len());
        let n = (buf.len() as u64).min(self.chunk);
        if n == 0 {
            return Ok(0);
        }
        if self.pos > self.data.len() as u64 || n > self.data.len() as u64 - self.pos {
            sv::check(false, "write stays inside the modelled disc");
            sv::stop();
        }
        let p = self.pos as usize;
        self.data[p..p + n as usize].copy_from_slice(&buf[..n as usize]);
        self.lo = self.lo.min(self.pos);
        self.pos += n;
        self.len = self.len.max(self.pos);
        self.hi = self.hi.max(self.pos);
        Ok(n as usize)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.tick()
    }
}
impl Seek for Disk {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
            SeekFrom::End(o) => self.len as i128 + o as i128,
        };
        if n < 0 || n > i64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
