//! C03: the encrypted partition reader.
use crate::disk::Disk;
use crate::img::*;
use crate::sv;
use disc_riider::*;
use std::io::{Read, Seek, SeekFrom};

const LENS: [usize; 4] = [0x11, BDS + 3, 1, GDS + 5];
const FST: usize = 0x2460;

fn expect_len(size: u64, pos: u64, len: u64) -> u64 {
    if pos >= size {
        0
    } else {
        len.min(size - pos)
    }
}

const BLOCKS: [u64; 3] = [63, 0, 31];
/// a symbolic position; blocks = 0: in any block, otherwise in one of that many
fn position(groups: u64, blocks: u64) -> u64 {
    let g = sv::choose("group", groups + 1);
    if g == groups {
        return g * GDS as u64 + sv::range("past", 0, 0x100);
    }
    let b = match blocks {
        0 => sv::range("block", 0, 63),
        n => BLOCKS[sv::choose("block", n) as usize],
    };
    g * GDS as u64 + b * BDS as u64 + sv::range("off", 0, BDS as u64 - 1)
}

/// a = operations + 10 * groups + 100 * length kinds + 1000 * a failing disc (2: short transfers) + 10000 * number of blocks (0: all)
/// + 100000 * data area ends anywhere in the last block
#[no_mangle]
pub extern "C" fn h_reader_hist(a: u64) {
    let (ops, groups, kinds, fault, blocks, cut) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000 % 10, a / 10000 % 10, a / 100000 % 10);
    let mut key = [0u8; 16];
    sv::arr("key", &mut key);
    let mut hdr = [0u8; 0x400];
    sv::arr("hashes", &mut hdr);
    let mut plain = sv::bytes("plain", groups as usize * GDS);
    inner_header(&mut plain, 0x2440, FST as u32, 12);
    empty_fst(&mut plain, FST);
    // the size of the data area need not be a whole number of blocks
    let total4 = groups * (GDS as u64) / 4;
    let size4 = if cut == 0 { total4 } else { sv::range("size", total4 - (BDS as u64) / 4 + 1, total4) };
    let size = size4 * 4;
    let mut disk = disc(&plain, &key, size4 as u32, &hdr);
    if fault == 2 {
        disk.chunk = 0x100003;
    }
    let mut iso = match WiiIsoReader::open(disk) {
        Ok(x) => x,
        Err(_) => return sv::check(false, "the image opens"),
    };
    let entry = iso.partitions()[0].clone();
    let mut part = match iso.open_partition(entry) {
        Ok(x) => x,
        Err(_) => return sv::check(false, "the partition opens"),
    };
    sv::reach("open");
    if fault == 1 {
        iso.file.fail_at = iso.file.ops + sv::choose("fail", 4);
    }
    let mut pos = position(groups, 1);
    {
        let mut r = part.get_crypto_reader(&mut iso);
        let s = r.seek(SeekFrom::Start(pos));
        sv::check(s.is_ok() && s.unwrap() == pos, "a seek from the start goes to that position");
    }
    for _ in 0..ops {
        let op = sv::choose("op", if ops > 1 { 2 } else { 4 });
        let mut r = part.get_crypto_reader(&mut iso);
        match op {
            0 => {
                let p = position(groups, blocks);
                let s = r.seek(SeekFrom::Start(p));
                sv::check(s.is_ok() && s.unwrap() == p, "a seek from the start goes to that position");
                pos = p;
                // and read
                let n = LENS[sv::choose("len", kinds) as usize];
                pos = read(&mut r, &plain, size, pos, n);
            }
            1 => {
                let p = position(groups, blocks);
                let n = LENS[sv::choose("len", kinds) as usize];
                let mut v = vec![1, 2, 3];
                match r.read_into_vec(p, n as u64, &mut v) {
                    Ok(()) => {
                        let m = expect_len(size, p, n as u64);
                        sv::check(v.len() as u64 == m, "a random-access read returns the range cut at the end of the data area");
                        if v.len() as u64 == m && m > 0 {
                            sv::check_eq(&v, &plain[p as usize..(p + m) as usize], "a random-access read returns the right bytes");
                            sv::reach("random access");
                        }
                    }
                    Err(_) => {
                        sv::reach("failed");
                        sv::check(fault == 1, "a random-access read succeeds when the disc does");
                    }
                }
                let s = r.stream_position();
                sv::check(s.is_ok() && s.unwrap() == pos, "a random-access read leaves the position alone");
            }
            2 => {
                let d = sv::range("by", 0, 0x1000) as i64 - 0x800;
                let s = r.seek(SeekFrom::Current(d));
                let want = pos as i64 + d;
                if want >= 0 {
                    sv::check(s.is_ok() && s.unwrap() == want as u64, "a relative seek moves by that much");
                    pos = want as u64;
                    pos = read(&mut r, &plain, size, pos, 0x11);
                } else {
                    sv::check(s.is_err(), "a seek before the start is refused");
                }
            }
            _ => {
                let p = sv::u64v("far");
                match r.seek(SeekFrom::Start(p)) {
                    Ok(q) => {
                        sv::check(q == p, "a seek from the start goes to that position");
                        pos = q;
                        sv::reach("far");
                    }
                    Err(_) => sv::check(p > i64::MAX as u64, "a seek to a representable position succeeds"),
                }
            }
        }
        let mut r = part.get_crypto_reader(&mut iso);
        let s = r.stream_position();
        sv::check(s.is_ok() && s.unwrap() == pos, "the reported position is where the last operation left it");
    }
    let _ = pos;
    fn read(r: &mut CryptPartReader<Disk>, plain: &[u8], size: u64, pos: u64, n: usize) -> u64 {
        let mut buf = vec![0u8; n];
        match r.read(&mut buf) {
            Ok(m) => {
                let m = m as u64;
                let most = expect_len(size, pos, n as u64);
                sv::check(m <= most, "a read stays inside the data area and the buffer");
                sv::check(m > 0 || most == 0, "a read inside the data area makes progress");
                if m > 0 && m <= most {
                    sv::check_eq(&buf[..m as usize], &plain[pos as usize..(pos + m) as usize], "a read returns the bytes at the position");
                    sv::reach("read");
                } else {
                    sv::reach("end");
                }
                pos + m
            }
            Err(_) => {
                sv::reach("failed");
                sv::check(r.stream_position().is_ok(), "the position is known");
                let p = r.stream_position().unwrap();
                // bytes already delivered may have moved the position
                sv::check(p >= pos && p <= pos + n as u64, "a failed read leaves the position within the range");
                p
            }
        }
    }
}
