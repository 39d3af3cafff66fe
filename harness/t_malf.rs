//! C13: malformed images produce errors, never crashes.  The checks here are implicit: a panic, an overflow, an access
//! out of bounds, runaway recursion or an allocation above the limit is a violation wherever it happens.
use crate::disk::Disk;
use crate::img::*;
use crate::sv;
use binrw::BinReaderExt;
use disc_riider::structs::*;
use disc_riider::*;
use std::io::{Read, Seek, SeekFrom};

/// largest single allocation while parsing a source of n bytes: a parsed entry takes up to 8 times its size on disc and
/// vectors grow by doubling; plus a fixed amount (one group cache and what an error message needs)
fn limit(n: u64) {
    sv::alloc_limit(32 * n + 0x1000);
}

/// a = entries + 10 * bytes of names + 100 * (1: the rest of the source is cut off at a symbolic point; 2: only kinds
/// and ends of the entries are symbolic)
#[no_mangle]
pub extern "C" fn h_malf_fst(a: u64) {
    let (n, s, cut) = (a % 10, a / 10 % 10, a / 100 % 10);
    let total = 12 * n + s;
    let mut v = sv::bytes("names", total as usize);
    for i in 0..n as usize {
        be32(&mut v, 12 * i, sv::u32v("name"));
        v[12 * i] = sv::u8v("kind");
        be32(&mut v, 12 * i + 4, sv::u32v("offset"));
        be32(&mut v, 12 * i + 8, sv::u32v("length"));
    }
    let mut d = Disk::from(v);
    if cut == 1 {
        d.len = sv::choose("len", total + 1);
    }
    if cut == 2 {
        for i in 0..n as usize {
            d.data[12 * i + 1..12 * i + 8].fill(0);
        }
        d.data[12 * n as usize..].fill(0);
    }
    limit(total);
    match Fst::read(&mut d, 0) {
        Ok(f) => {
            sv::reach("parsed");
            let mut k = 0;
            let _ = f.callback_all_files::<(), _>(&mut |_, _| {
                k += 1;
                Ok(())
            });
            // every entry of the tree is backed by an entry of the table
            sv::check(k <= n, "the tree has no more nodes than the table has entries");
        }
        Err(_) => sv::reach("error"),
    }
    sv::alloc_limit(0);
}

/// a chain of nested directories; a = thousands of them
#[no_mangle]
pub extern "C" fn h_malf_deep(a: u64) {
    let n = a * 1000;
    let mut v = vec![0u8; (12 * n) as usize];
    for i in 0..n as usize {
        let e = &mut v[i * 12..i * 12 + 12];
        e[0] = 1;
        e[8..12].copy_from_slice(&(n as u32).to_be_bytes());
    }
    v.push(0);
    let mut d = Disk::from(v);
    match Fst::read(&mut d, 0) {
        Ok(f) => {
            let _ = f.callback_all_files::<(), _>(&mut |_, _| Ok(()));
        }
        Err(_) => sv::reach("error"),
    }
}

/// a wide table: many entries in one directory, all symbolic types and ends; a = entries
#[no_mangle]
pub extern "C" fn h_malf_wide(a: u64) {
    let n = a as usize;
    let mut v = vec![0u8; 12 * n + 1];
    v[0] = 1;
    v[8..12].copy_from_slice(&(n as u32).to_be_bytes());
    for i in 1..n {
        v[i * 12] = 1;
        v[i * 12 + 8..i * 12 + 12].copy_from_slice(&(i as u32 + 1).to_be_bytes());
    }
    let total = v.len() as u64;
    let mut d = Disk::from(v);
    sv::alloc_total(64 * total + 0x10000);
    match Fst::read(&mut d, 0) {
        Ok(f) => {
            sv::check(f.get_entries().len() == n - 1, "all entries are listed");
            sv::reach("parsed");
        }
        Err(_) => sv::reach("error"),
    }
    sv::alloc_total(0);
}

/// every structure, from any bytes, cut anywhere; a = which
#[no_mangle]
pub extern "C" fn h_malf_struct(a: u64) {
    let size = match a {
        0 => 0x440,
        1 => 0x2a4,
        2 => 0x1e4 + 0x24 + 1,
        3 => 4 + 512 + 60 + 64 + 4 + 64 + 512 + 8 + 52,
        4 => 0x2c0,
        5 => 0x100,
        6 => 0x20,
        7 => 8,
        _ => 3 * 0x240,
    };
    let mut d = Disk::from(sv::bytes("data", size));
    d.all_or_nothing = true;
    if a == 0 {
        // the title: one symbolic byte, then zeros or characters without end
        let c = if sv::flag("long") { b'x' } else { 0 };
        for i in 0x21..size {
            d.data[i] = c;
        }
    }
    if a != 8 {
        d.len = sv::range("len", 0, size as u64);
    }
    limit(size as u64);
    let ok = match a {
        0 => d.read_be::<DiscHeader>().is_ok(),
        1 => d.read_be::<Ticket>().is_ok(),
        2 => d.read_be::<TMD>().is_ok(),
        3 => d.read_be::<Certificate>().is_ok(),
        4 => d.read_be::<WiiPartitionHeader>().is_ok(),
        5 => d.read_be::<DOLHeader>().is_ok(),
        6 => d.read_be::<ApploaderHeader>().is_ok(),
        7 => d.read_be::<WiiPartTableEntry>().is_ok(),
        _ => d.read_be::<[Certificate; 3]>().is_ok(),
    };
    sv::alloc_limit(0);
    sv::reach(if ok { "parsed" } else { "error" });
}

/// opening a disc whose partition tables hold anything; a = 0: counts up to 2, tables anywhere; 1: any counts, the image
/// ends after the region
#[no_mangle]
pub extern "C" fn h_malf_open(a: u64) {
    let mut v = vec![0u8; 0x4e020];
    for i in 0..4 {
        let o = 0x40000 + 8 * i;
        let n = if a == 0 { sv::choose("count", 3) as u32 } else { sv::u32v("count") };
        if a == 1 && i == 1 {
            break;
        }
        be32(&mut v, o, n);
        let t = sv::u32v("table");
        if a == 1 {
            // near the end of the image or past it
            sv::assume(t >= 0x4e000 >> 2);
        }
        be32(&mut v, o + 4, t);
        if i == 1 {
            break;
        }
    }
    let mut e = [0u8; 0x10];
    sv::arr("entries", &mut e);
    v[0x4e010..].copy_from_slice(&e);
    let total = v.len() as u64;
    let d = Disk::from(v);
    limit(total);
    match WiiIsoReader::open(d) {
        Ok(x) => {
            sv::reach("opened");
            let _ = x.partitions().len();
        }
        Err(_) => sv::reach("error"),
    }
    sv::alloc_limit(0);
}

/// a partition whose header and inner header hold anything
/// a = 0: the partition header; 1: inner header and table; 2: apploader header; 3: executable header; 4: the inner title
#[no_mangle]
pub extern "C" fn h_malf_part(a: u64) {
    let mut key = [0u8; 16];
    sv::arr("key", &mut key);
    let hdr = [0u8; 0x400];
    let mut plain = vec![0u8; GDS];
    inner_header(&mut plain, 0x2480, 0x3000, 24);
    empty_fst(&mut plain, 0x3000);
    plain[0x3018] = b'A';
    match a {
        1 => {
            // where the table lies, in quarters of bytes
            let at = [0x3000u32, GDS as u32 - 8, GDS as u32 - 12, GDS as u32, u32::MAX][sv::choose("at", 5) as usize];
            be32(&mut plain, 0x424, at >> 2);
            be32(&mut plain, 0x428, sv::u32v("size"));
            let mut t = [0u8; 24];
            let count = sv::u32v("count");
            // a table in the middle is not long (it would be read until the end of the data)
            sv::assume(at != 0x3000 || count <= 2);
            t[0] = sv::u8v("kind");
            be32(&mut t, 8, count);
            sv::arr("entry", &mut t[12..]);
            if (at as usize) < GDS {
                let n = 24.min(GDS - at as usize);
                plain[at as usize..at as usize + n].copy_from_slice(&t[..n]);
            }
        }
        2 => {
            be32(&mut plain, 0x2454, sv::u32v("size1"));
            be32(&mut plain, 0x2458, sv::u32v("size2"));
        }
        3 => {
            // one section at the start and one other
            let k = 4 * [1, 6, 7, 17][sv::choose("section", 4) as usize];
            for i in [0, k] {
                be32(&mut plain, 0x2480 + i, sv::u32v("offset"));
                be32(&mut plain, 0x2480 + 0x90 + i, sv::u32v("size"));
            }
            be32(&mut plain, 0x420, [0x2480, GDS as u32 - 0x80, u32::MAX][sv::choose("at", 3) as usize] >> 2);
        }
        4 => {
            let c = if sv::flag("long") { b'x' } else { 0 };
            for i in 0x20..0x62 {
                plain[i] = c;
            }
            sv::arr("title", &mut plain[0x20..0x22]);
        }
        _ => {}
    }
    let mut disk = disc(&plain, &key, GDS as u32 >> 2, &hdr);
    if a == 0 {
        // everything in the header except what fixes the key
        let h = PART;
        sv::arr("sig", &mut disk.data[h..h + 8]);
        // another common key would give another title key
        let c = if sv::flag("known_key") { 0 } else { sv::range("common_key", 2, 255) as u8 };
        disk.data[h + 0x1f1] = c;
        be32(&mut disk.data, h + 0x2a4, sv::u32v("tmd_size"));
        be32(&mut disk.data, h + 0x2ac, sv::u32v("cert_size"));
        let spots = [0x2c0 >> 2, (disk.len as usize - h - 8) as u32 >> 2, u32::MAX];
        be32(&mut disk.data, h + 0x2a8, spots[sv::choose("tmd", 3) as usize]);
        be32(&mut disk.data, h + 0x2b0, spots[sv::choose("cert", 3) as usize]);
        let off = [DATA as u32, u32::MAX, DATA as u32 + GS as u32 - 4][sv::choose("data", 3) as usize];
        be32(&mut disk.data, h + 0x2b8, off >> 2);
        let size = sv::u32v("size") as u64;
        sv::assume([(0, 2), (0x43c, 0x444), (0x2ffc, 0x3018), (GDS as u64 - 8, u64::MAX)].iter().any(|r| r.0 <= size * 4 && size * 4 <= r.1));
        be32(&mut disk.data, h + 0x2bc, size as u32);
    }
    let total = disk.len;
    let mut iso = match WiiIsoReader::open(disk) {
        Ok(x) => x,
        Err(_) => return sv::check(false, "the disc opens"),
    };
    let entry = iso.partitions()[0].clone();
    limit(total);
    let mut part = match iso.open_partition(entry) {
        Ok(x) => x,
        Err(_) => return sv::reach("error"),
    };
    sv::reach("opened");
    match a {
        0 => {
            let t = part.read_tmd(&mut iso).is_ok();
            let c = part.read_certificates(&mut iso).is_ok();
            sv::reach(if t || c { "parsed" } else { "not parsed" });
        }
        2 => {
            let t = part.read_apploader(&mut iso).is_ok();
            sv::reach(if t { "parsed" } else { "not parsed" });
        }
        3 => {
            let t = part.read_dol(&mut iso).is_ok();
            sv::reach(if t { "parsed" } else { "not parsed" });
        }
        1 => {
            let t = part.read_bi2(&mut iso).is_ok();
            let mut b = [0u8; 4];
            let p = part.get_fst().get_entries().first().map(|n| n.get_name().clone());
            if let Some(p) = p {
                if let Some(mut f) = part.open_file(&mut iso, &p) {
                    let r = f.read(&mut b).is_ok();
                    let s = f.seek(SeekFrom::End(-2)).is_ok();
                    sv::reach(if t && r && s { "file" } else { "no file" });
                }
            }
        }
        _ => {}
    }
    sv::alloc_limit(0);
}
