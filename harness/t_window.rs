//! C12: IOWindow.
use crate::disk::Disk;
use crate::sv;
use disc_riider::IOWindow;
use std::cell::Cell;
use std::rc::Rc;
use std::io::{self, Read, Seek, SeekFrom, Write};

#[derive(Default)]
struct Shared {
    /// where the next access has to happen
    expect: Cell<u64>,
    ops: Cell<u64>,
    fail_at: Cell<u64>,
    failed: Cell<bool>,
}
impl Shared {
    fn tick(&self) -> io::Result<()> {
        let k = self.ops.get();
        self.ops.set(k + 1);
        if k == self.fail_at.get() {
            self.failed.set(true);
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        Ok(())
    }
}
/// A source of unlimited size that checks where it is accessed and transfers at most `give` bytes a call
struct Probe {
    pos: u64,
    give: u64,
    sh: Rc<Shared>,
}
impl Probe {
    fn access(&mut self, n: u64) -> io::Result<usize> {
        let k = n.min(self.give);
        if n > 0 {
            sv::check(self.pos == self.sh.expect.get(), "the source is accessed at start + position");
            sv::reach("access");
        }
        if let Err(e) = self.sh.tick() {
            // a failing access may leave the source anywhere
            self.pos = sv::range("failpos", 0, i64::MAX as u64);
            return Err(e);
        }
        self.pos += k;
        self.sh.expect.set(self.sh.expect.get() + k);
        Ok(k as usize)
    }
}
impl Read for Probe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.access(b.len() as u64)
    }
}
impl Write for Probe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.access(b.len() as u64)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Probe {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.sh.tick()?;
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
            SeekFrom::End(_) => return Err(io::ErrorKind::Unsupported.into()),
        };
        if n < 0 || n > i64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// a = number of operations + 10 * (length known: 1, unknown: 0) + 100 * (faults: 1)
/// start, length and seek offsets are arbitrary 64-bit values, one operation of the source may fail
#[no_mangle]
pub extern "C" fn h_win_probe(a: u64) {
    let (ops, known, faults) = (a % 10, a / 10 % 10 == 1, a / 100 == 1);
    // positions of real files do not exceed i64::MAX
    let start = sv::range("start", 0, i64::MAX as u64);
    let length = if known { Some(sv::u64v("length")) } else { None };
    let sh = Rc::new(Shared::default());
    sh.fail_at.set(if faults { sv::range("fail_at", 0, 2 * ops) } else { u64::MAX });
    let p = Probe { pos: sv::range("srcpos", 0, i64::MAX as u64), give: sv::range("give", 1, 4), sh: sh.clone() };
    let mut w = IOWindow::new(p, start, length);
    let mut pos: u64 = 0;
    for _ in 0..ops {
        let op = sv::choose("op", 6);
        match op {
            0 | 1 | 2 => {
                let off = sv::u64v("off");
                let had = sh.failed.get();
                let (r, want) = match op {
                    0 => (w.seek(SeekFrom::Start(off)), Some(off as i128)),
                    1 => (w.seek(SeekFrom::Current(off as i64)), Some(pos as i128 + off as i64 as i128)),
                    _ => (w.seek(SeekFrom::End(off as i64)), length.map(|l| l as i128 + off as i64 as i128)),
                };
                let now = w.stream_position().unwrap();
                match r {
                    Ok(n) => {
                        sv::check(n == now, "seek returns the position it reports");
                        match want {
                            None => sv::check(false, "seeking from the end needs a known length"),
                            Some(t) if t < 0 => sv::check(now == 0, "a seek before the start is an error or stops at the start"),
                            Some(t) => {
                                sv::check(now as i128 == t, "a seek goes to the window coordinate asked for");
                                sv::reach("seek");
                            }
                        }
                        pos = now;
                    }
                    Err(_) => {
                        sv::check(now == pos, "a failed seek leaves the position alone");
                        if let (Some(t), true) = (want, had == sh.failed.get()) {
                            if t >= 0 && t + start as i128 <= i64::MAX as i128 {
                                sv::check(false, "a seek inside the addressable range succeeds");
                            }
                        }
                        sv::reach("seek refused");
                    }
                }
            }
            _ => {
                // keep clear of the end of the address range
                sv::assume(pos <= i64::MAX as u64 - 16 && pos + start <= i64::MAX as u64 - 16);
                let n = sv::choose("n", 4) as usize;
                let mut b = [0u8; 4];
                let left = length.map_or(u64::MAX, |l| l.saturating_sub(pos));
                sh.expect.set(start + pos);
                let had = sh.failed.get();
                let r = match op {
                    3 => w.read(&mut b[..n]),
                    4 => w.write(&b[..n]),
                    _ => {
                        let r = w.read_exact(&mut b[..n]);
                        if had == sh.failed.get() {
                            sv::check(r.is_ok() == (n as u64 <= left), "an exact read succeeds if and only if enough bytes are left");
                        }
                        r.map(|_| n)
                    }
                };
                match r {
                    Ok(k) => {
                        sv::check(had == sh.failed.get(), "a failure of the source is reported");
                        sv::check(k as u64 <= left, "no more than what is left is transferred");
                        sv::check(k <= n, "no more than the buffer is transferred");
                        sv::check(k > 0 || n == 0 || left == 0, "a transfer makes progress while bytes are left");
                        pos += k as u64;
                        if k > 0 {
                            sv::reach("transfer");
                        }
                    }
                    Err(_) => {
                        pos = w.stream_position().unwrap();
                        sv::reach("transfer failed");
                    }
                }
            }
        }
        sv::check(w.stream_position().unwrap() == pos, "the reported position is the position of the next access");
    }
    sv::reach("end");
}

/// a = operations + 10 * (length known) + 100 * chunked source
/// a window over a small disc with symbolic bytes, compared with a model
#[no_mangle]
pub extern "C" fn h_win_disk(a: u64) {
    let (ops, known, chunk) = (a % 10, a / 10 % 10 == 1, a / 100 % 10);
    const N: usize = 8;
    let init = sv::bytes("disk", N);
    let mut model = init.clone();
    let mut d = Disk::from(init);
    d.data.resize(32, 0);
    model.resize(32, 0);
    let mut mlen = N as u64;
    if chunk > 0 {
        d.chunk = chunk;
    }
    // 1000: fewer choices, for longer sequences
    let small = a / 1000 == 1;
    d.pos = if small { 0 } else { sv::choose("srcpos", 3) };
    let start = if small { 2 } else { sv::choose("start", 4) };
    let length = if known { Some(if small { 3 } else { sv::choose("length", 5) }) } else { None };
    let mut w = IOWindow::new(&mut d, start, length);
    let mut pos: u64 = 0;
    for k in 0..ops {
        let op = sv::choose("op", 6);
        match op {
            0 => {
                let off = sv::choose("off", 6);
                sv::check(w.seek(SeekFrom::Start(off)).is_ok(), "a seek to a valid position succeeds");
                pos = off;
            }
            1 => {
                let off = sv::choose("off", 5) as i64 - 2;
                sv::assume(pos as i64 + off >= 0);
                sv::check(w.seek(SeekFrom::Current(off)).is_ok(), "a seek to a valid position succeeds");
                pos = (pos as i64 + off) as u64;
            }
            2 => {
                let off = sv::choose("off", 5) as i64 - 3;
                match length {
                    None => {
                        sv::check(w.seek(SeekFrom::End(off)).is_err(), "seeking from the end needs a known length");
                    }
                    Some(l) => {
                        sv::assume(l as i64 + off >= 0);
                        sv::check(w.seek(SeekFrom::End(off)).is_ok(), "a seek to a valid position succeeds");
                        pos = (l as i64 + off) as u64;
                    }
                }
            }
            _ => {
                let n = if small { 2 } else { sv::choose("n", 4) };
                let left = length.map_or(u64::MAX, |l| l.saturating_sub(pos));
                let at = (start + pos) as usize;
                let avail = (mlen as i64 - at as i64).max(0) as u64;
                if op == 4 {
                    let data = sv::bytes("w", 4);
                    let want = n.min(left).min(if chunk > 0 { chunk } else { n });
                    match w.write(&data[..n as usize]) {
                        Ok(m) => {
                            sv::check(m as u64 == want, "a write transfers what fits in the window");
                            model[at..at + want as usize].copy_from_slice(&data[..want as usize]);
                            if want > 0 {
                                mlen = mlen.max(at as u64 + want);
                                sv::reach("written");
                            }
                            pos += want;
                        }
                        Err(_) => sv::check(false, "a write inside the window succeeds"),
                    }
                } else if op == 3 {
                    let mut b = [0u8; 4];
                    let want = n.min(left).min(avail).min(if chunk > 0 { chunk } else { n });
                    match w.read(&mut b[..n as usize]) {
                        Ok(m) => {
                            sv::check(m as u64 == want, "a read transfers what the window holds");
                            sv::check_eq(&b[..want as usize], &model[at..at + want as usize], "a read returns the bytes at start + position");
                            if want > 0 {
                                sv::reach("read");
                            }
                            pos += want;
                        }
                        Err(_) => sv::check(false, "a read inside the window succeeds"),
                    }
                } else {
                    let mut b = [0u8; 4];
                    let ok = n <= left && n <= avail;
                    match w.read_exact(&mut b[..n as usize]) {
                        Ok(()) => {
                            sv::check(ok, "an exact read of more than is left fails");
                            sv::check_eq(&b[..n as usize], &model[at..at + n as usize], "an exact read returns the bytes at start + position");
                            pos += n;
                            sv::reach("exact");
                        }
                        Err(_) => {
                            sv::check(!ok, "an exact read succeeds when enough bytes are left");
                            sv::reach("exact refused");
                            pos = w.stream_position().unwrap();
                            sv::check(pos <= 12, "the position stays where bytes were transferred");
                        }
                    }
                }
            }
        }
        sv::check(w.stream_position().unwrap() == pos, "the reported position is the position of the next access");
        let _ = k;
    }
    drop(w);
    sv::check(d.len == mlen, "nothing outside the window is written");
    sv::check_eq(&d.data, &model, "nothing outside the window is written");
    sv::reach("end");
}
