//! C02, C04: the encrypted partition writer.
use crate::disk::Disk;
use crate::sv;
use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, KeyIvInit};
use disc_riider::verif::WiiEncryptedReadWriteStream as Stream;
use disc_riider::*;
use sha1::{Digest, Sha1};
use std::io::{Read, Seek, SeekFrom, Write};

const GDS: u64 = GROUP_DATA_SIZE;
const BDS: u64 = BLOCK_DATA_SIZE;

/// blocks in which writes start
const BLOCKS: [u64; 3] = [63, 0, 40];
/// lengths of the writes of a history
const LENS: [u64; 6] = [0x20, BDS + 7, 1, GDS + 0x40, 2 * GDS, 0];

/// a = operations + 10 * groups + 100 * length kinds + 1000 * chunked disc + 10000 * number of blocks to start in (0: all)
/// A history of writes (anywhere in the first `groups` groups), seeks and flushes, then a flush and read-back.
#[no_mangle]
pub extern "C" fn h_stream_hist(a: u64) {
    let (ops, groups, kinds, chunk, blocks) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000 % 10, a / 10000 % 10);
    const OFF: u64 = 0x100;
    let cap = (groups + 2) * GROUP_SIZE + OFF;
    let mut disk = Disk::new(cap as usize);
    if chunk == 1 {
        disk.chunk = 0x100001;
    }
    let mut key = [0u8; 16];
    sv::arr("key", &mut key);
    let mut model = vec![0u8; ((groups + 2) * GDS) as usize];
    let mut spans: Vec<(u64, u64)> = vec![];
    let mut h3: Option<Box<[u8; 0x18000]>>;
    {
        let mut s = Stream::create_write(&mut disk, OFF, key, None, 0);
        for k in 0..ops {
            let op = if k == 0 { 0 } else { sv::choose("op", 2) };
            if op == 0 {
                let g = sv::choose("group", groups);
                let len = LENS[sv::choose("len", kinds) as usize];
                let b = match blocks {
                    0 => sv::range("block", 0, 63),
                    n => BLOCKS[sv::choose("block", n) as usize],
                };
                let o = sv::range("off", 0, BDS - 1);
                let pos = g * GDS + b * BDS + o;
                let data = sv::bytes("data", len as usize);
                match s.seek(SeekFrom::Start(pos)) {
                    Ok(p) => sv::check(p == pos, "seek returns the new position"),
                    Err(_) => sv::check(false, "seek succeeds"),
                }
                sv::check(s.write_all(&data).is_ok(), "a write succeeds when the disc does");
                match s.stream_position() {
                    Ok(p) => sv::check(p == pos + len, "the position advances by what was written"),
                    Err(_) => sv::check(false, "the position is known"),
                }
                model[pos as usize..(pos + len) as usize].copy_from_slice(&data);
                spans.push((pos, len));
            } else {
                sv::check(s.flush().is_ok(), "a flush succeeds when the disc does");
                sv::reach("flushed");
            }
        }
        sv::check(s.flush().is_ok(), "a flush succeeds when the disc does");
        // through the writer itself
        let mut out = vec![];
        for &(p, n) in &spans {
            sv::check(s.read_into_vec(p, n, &mut out).is_ok(), "reading back succeeds");
            sv::check_eq(&out, &model[p as usize..(p + n) as usize], "the bytes written last read back through the writer");
        }
        h3 = s.take_h3();
    }
    sv::check(h3.is_some(), "the writer keeps a hash table");
    // through a fresh reader
    {
        let mut s = Stream::create_readonly(&mut disk, OFF, key, groups + 2);
        for &(p, n) in &spans {
            let mut out = vec![0u8; n as usize];
            sv::check(s.seek(SeekFrom::Start(p)).is_ok(), "seek succeeds");
            sv::check(s.read_exact(&mut out).is_ok(), "reading back succeeds");
            sv::check_eq(&out, &model[p as usize..(p + n) as usize], "the bytes written last read back through a fresh reader");
            sv::reach("readback");
        }
    }
    let _ = h3.take();
}

/// Long writes of any length over data that is already there: two full groups, then `ops` writes that start at or just
/// after the start of a group, of a number of whole blocks out of COUNTS plus any rest; everything is compared at the end.
/// a = ops + 10 * number of block counts + 100 * a symbolic distance from the start of the group
#[no_mangle]
pub extern "C" fn h_stream_long(a: u64) {
    const COUNTS: [u64; 7] = [63, 64, 0, 62, 127, 1, 65];
    let (ops, counts, skew) = (a % 10, a / 10 % 10, a / 100 % 10);
    let mut disk = Disk::new((5 * GROUP_SIZE) as usize);
    let mut key = [0u8; 16];
    sv::arr("key", &mut key);
    let mut model = vec![0u8; (5 * GDS) as usize];
    {
        let mut s = Stream::create_write(&mut disk, 0, key, None, 0);
        let first = sv::bytes("first", 2 * GDS as usize);
        sv::check(s.write_all(&first).is_ok(), "a write succeeds when the disc does");
        model[..2 * GDS as usize].copy_from_slice(&first);
        for _ in 0..ops {
            let g = sv::choose("group", 2);
            let o = if skew > 0 { sv::range("off", 0, 0x100) } else { 0 };
            let n = COUNTS[sv::choose("blocks", counts) as usize] * BDS;
            let len = n + sv::range("rest", 0, BDS - 1);
            let data = sv::bytes("data", (n + BDS) as usize);
            let pos = g * GDS + o;
            sv::check(s.seek(SeekFrom::Start(pos)).is_ok(), "seek succeeds");
            sv::check(s.write_all(&data[..len as usize]).is_ok(), "a write succeeds when the disc does");
            sv::check(s.stream_position().ok() == Some(pos + len), "the position advances by what was written");
            model[pos as usize..(pos + len) as usize].copy_from_slice(&data[..len as usize]);
            sv::reach("written");
        }
        sv::check(s.flush().is_ok(), "a flush succeeds when the disc does");
    }
    let mut s = Stream::create_readonly(&mut disk, 0, key, 5);
    let mut out = vec![];
    sv::check(s.read_into_vec(0, 2 * GDS, &mut out).is_ok(), "reading back succeeds");
    sv::check_eq(&out, &model[..2 * GDS as usize], "the bytes written last read back through a fresh reader");
}
