//! C01, C04, C16, C17, C21, C23: building discs.
use crate::disk::Disk;
use crate::img::*;
use crate::part::*;
use crate::sv;
use crate::tree::*;
use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, KeyIvInit};
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::builder::*;
use disc_riider::structs::*;
use disc_riider::*;
use sha1::{Digest, Sha1};
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom, Write};

/// the disc behind a builder, so that it can be looked at while the builder has it
struct Sh<'a>(&'a RefCell<Disk>);
impl Read for Sh<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().read(b)
    }
}
impl Write for Sh<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.borrow_mut().flush()
    }
}
impl Seek for Sh<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.borrow_mut().seek(p)
    }
}

#[no_mangle]
pub extern "C" fn h_img_rt(a: u64) {
    let mut b = build(a, 1);
    let parts: Vec<_> = b.defs.iter().enumerate().map(|(i, (d, m))| (TYPES[i], d, m)).collect();
    read_all(&mut b.disk, &b.hdr, &b.region, &parts);
    sv::reach("done");
}

fn g32(d: &[u8], o: u64) -> u64 {
    let o = o as usize;
    (d[o] as u64) << 24 | (d[o + 1] as u64) << 16 | (d[o + 2] as u64) << 8 | d[o + 3] as u64
}
/// decrypted bytes of a data area that starts at `at`
fn plain(d: &[u8], at: u64, key: &[u8; 16], off: u64, len: u64) -> Vec<u8> {
    let mut v = vec![];
    let (b0, b1) = (off / BDS as u64, (off + len + BDS as u64 - 1) / BDS as u64);
    for b in b0..b1 {
        let o = (at + b * 0x8000) as usize;
        let mut iv = [0u8; 16];
        iv.copy_from_slice(&d[o + 0x3d0..o + 0x3e0]);
        let mut x = d[o + 0x400..o + 0x8000].to_vec();
        cbc::Decryptor::<aes::Aes128>::new(key.into(), (&iv).into()).decrypt_padded_mut::<NoPadding>(&mut x).unwrap();
        v.extend_from_slice(&x);
    }
    let s = (off - b0 * BDS as u64) as usize;
    v[s..s + len as usize].to_vec()
}
/// ranges (start, length): no two overlap
fn apart(r: &[(u64, u64)], m: &str) {
    let mut ok = true;
    for i in 0..r.len() {
        for j in 0..i {
            let (a, b) = (r[i], r[j]);
            ok &= (a.1 == 0) | (b.1 == 0) | (a.0 + a.1 <= b.0) | (b.0 + b.1 <= a.0);
        }
    }
    sv::check(ok, m);
}

#[no_mangle]
pub extern "C" fn h_img_layout(a: u64) {
    let b = build(a, 1);
    let d = &b.disk.data;
    let n = b.defs.len() as u64;
    // partition tables
    sv::check(g32(d, 0x40000) == n, "the first table lists every partition once");
    for i in 1..4 {
        sv::check(g32(d, 0x40000 + 8 * i) == 0, "the other tables are empty");
    }
    let t = g32(d, 0x40004) * 4;
    sv::check(t >= 0x40020 && t + 8 * n <= 0x4e000, "the table lies in its area");
    let mut whole = vec![(0, 0x50000)];
    for (i, (def, m)) in b.defs.iter().enumerate() {
        let e = t + 8 * i as u64;
        let p = g32(d, e) * 4;
        sv::check(p >= 0x50000 && p + 0x2c0 <= b.disk.len, "the partition lies at or after 0x50000 inside the image");
        sv::check(g32(d, e + 4) == i as u64, "the partition is listed with its type");
        let h = |o| g32(d, p + o);
        let (tmd, tmd_n, cert, cert_n, h3, data, size) = (h(0x2a8) * 4, h(0x2a4), h(0x2b0) * 4, h(0x2ac), h(0x2b4) * 4, h(0x2b8) * 4, h(0x2bc) * 4);
        sv::check(tmd_n == m.tmd_bytes.len() as u64, "the recorded size of the metadata is its size");
        sv::check(cert_n == m.cert_bytes.len() as u64, "the recorded size of the certificates is their size");
        sv::check(size % GDS as u64 == 0 && size > 0, "the data is a whole number of groups");
        let groups = size / GDS as u64;
        apart(&[(0, 0x2c0), (tmd, tmd_n), (cert, cert_n), (h3, 0x18000), (data, groups * GS as u64)], "the pieces of a partition do not overlap");
        let end = p + data + groups * GS as u64;
        sv::check(p + tmd + tmd_n <= end && p + cert + cert_n <= end && p + h3 + 0x18000 <= end, "the metadata comes before the end of the partition");
        sv::check(end <= b.disk.len, "the data area is inside the image");
        whole.push((p, end - p));
        let c = (p + cert) as usize;
        sv::check_eq(&d[c..c + m.cert_bytes.len()], &m.cert_bytes, "the certificates lie where the header says");
        // inside the data area
        let at = p + data;
        let inner = plain(d, at, &m.key, 0, 0x440);
        let (dol, fst, fst_n, fst_max) = (g32(&inner, 0x420) * 4, g32(&inner, 0x424) * 4, g32(&inner, 0x428) * 4, g32(&inner, 0x42c) * 4);
        sv::check(fst_max >= fst_n, "the maximum size of the file system table is at least its size");
        let nodes = count(&def.tree) + 1;
        let fst = sv::concrete(fst);
        let tab = plain(d, at, &m.key, fst, 12 * nodes);
        sv::check(g32(&tab, 8) == nodes, "the file system table has an entry for every node");
        let mut r = vec![(0, 0x440), (0x440, 0x2000), (0x2440, def.app.len() as u64), (dol, def.dol.len() as u64), (fst, fst_n)];
        let mut k = 0;
        let mut names = 0u64;
        entries(&def.tree, &mut |f: &N| {
            k += 1;
            names += f.name.len() as u64 + 1;
            if f.dir {
                return sv::check(tab[12 * k] == 1, "a directory is listed as one");
            }
            sv::check(tab[12 * k] == 0, "a file is listed as one");
            let (o, l) = (g32(&tab, 12 * k as u64 + 4) * 4, g32(&tab, 12 * k as u64 + 8));
            sv::check(o % 0x40 == 0, "every file starts at a multiple of 0x40");
            sv::check(o + l <= size, "every file lies inside the data area");
            r.push((o, l));
            sv::reach("file");
        });
        sv::check(fst_n >= 12 * nodes + names, "the recorded size covers the whole file system table");
        for x in &r {
            sv::check(x.0 + x.1 <= size, "everything lies inside the data area");
        }
        apart(&r, "system files, file system table and files do not overlap");
        let mut files = r[5..].iter();
        for f in &def.files {
            if let Some(x) = files.next() {
                sv::check(x.1 == f.data.len() as u64, "every file is listed with its length");
            }
        }
    }
    apart(&whole, "partitions do not overlap");
    sv::reach("done");
}

/// every group of every partition is valid (as above)
#[no_mangle]
pub extern "C" fn h_img_hash(a: u64) {
    let b = build(a, 1);
    let d = &b.disk.data;
    let t = g32(d, 0x40004) * 4;
    for (i, (_, m)) in b.defs.iter().enumerate() {
        let p = g32(d, t + 8 * i as u64) * 4;
        let h = |o| g32(d, p + o);
        let (h3, data, size) = (p + h(0x2b4) * 4, p + h(0x2b8) * 4, h(0x2bc) * 4);
        let groups = sv::concrete(size / GDS as u64);
        for g in 0..groups {
            let at = data + g * GS as u64;
            sv::check(at + GS as u64 <= b.disk.len, "every group is there");
            let (at, k) = (at as usize, (h3 + 20 * g) as usize);
            verify_group(&d[at..at + GS], &m.key, &d[k..k + 20]);
            sv::reach("group");
            if g > 0 {
                sv::reach("later group");
            }
        }
    }
    sv::reach("done");
}

/// metadata with a contents: refused or laid out properly
#[no_mangle]
pub extern "C" fn h_img_contents(a: u64) {
    let mut disk = Disk::new(0x50000 + 0x20000 + GS);
    let m = meta(a as usize, false);
    let mut d = Def::new(vec![], 0x25, 0x123);
    sv::digest_cap(1);
    let r = {
        let mut b = WiiDiscBuilder::create(&mut disk, header("disc", 5), [0; 32]);
        let r = b.add_partition(WiiPartType::Data, m.ticket, m.tmd, m.certs, &mut d, &mut |_| ());
        sv::check(b.finish().is_ok(), "the disc can be finished");
        r.is_ok()
    };
    let d = &disk.data;
    if !r {
        sv::check(g32(d, 0x40000) == 0, "a partition that was refused is not listed");
        return sv::reach("refused");
    }
    let p = g32(d, 0x40020) * 4;
    let h = |o| g32(d, p + o);
    apart(
        &[(0, 0x2c0), (h(0x2a8) * 4, h(0x2a4)), (h(0x2b0) * 4, h(0x2ac)), (h(0x2b4) * 4, 0x18000), (h(0x2b8) * 4, GS as u64)],
        "the pieces of a partition do not overlap",
    );
    sv::check(h(0x2a4) == m.tmd_bytes.len() as u64, "the recorded size of the metadata is its size");
    let c = (p + h(0x2b0) * 4) as usize;
    sv::check_eq(&d[c..c + m.cert_bytes.len()], &m.cert_bytes, "the certificates lie where the header says");
    let t = (p + h(0x2a8) * 4) as usize;
    sv::check_eq(&d[t + 0x208..t + m.tmd_bytes.len()], &m.tmd_bytes[0x208..], "the other contents are as supplied");
    sv::reach("accepted");
}
fn entries(v: &[N], f: &mut dyn FnMut(&N)) {
    for n in v {
        f(n);
        entries(&n.kids, f);
    }
}

/// as above; b = signing attempts
#[no_mangle]
pub extern "C" fn h_img_tmd(a: u64) {
    let b = build(a % 1000000, 1 + a / 1000000);
    let d = &b.disk.data;
    let t = g32(d, 0x40004) * 4;
    for (i, (_, m)) in b.defs.iter().enumerate() {
        let p = g32(d, t + 8 * i as u64) * 4;
        let h = |o| g32(d, p + o);
        let (tmd, n, h3, size) = ((p + h(0x2a8) * 4) as usize, h(0x2a4) as usize, (p + h(0x2b4) * 4) as usize, h(0x2bc) * 4);
        sv::check(n == m.tmd_bytes.len(), "the metadata keeps its size");
        let got = &d[tmd..tmd + m.tmd_bytes.len()];
        let mut want = m.tmd_bytes.clone();
        want[4..0x104].fill(0);
        want[0x19a..0x1d2].copy_from_slice(&got[0x19a..0x1d2]);
        want[0x1ec..0x1f4].copy_from_slice(&size.to_be_bytes());
        let x: [u8; 20] = Sha1::digest(&d[h3..h3 + 0x18000]).into();
        want[0x1f4..0x208].copy_from_slice(&x);
        sv::check_eq(&got[0x1f4..0x208], &want[0x1f4..0x208], "the first content's hash is that of the hash table");
        sv::check_eq(&got[0x1ec..0x1f4], &want[0x1ec..0x1f4], "the first content's size is the size of the data");
        sv::check_eq(&got[4..0x104], &want[4..0x104], "the signature is all zero");
        sv::check_eq(got, &want, "everything else is as supplied");
        let x: [u8; 20] = Sha1::digest(&got[0x140..]).into();
        sv::check(x[0] == 0, "the hash of the signed part starts with a zero byte");
        sv::reach("signed");
    }
}

/// a = nodes + 10 * file length kinds + 100 * declared lengths are zero + 1000 * lengths around the size of a batch
#[no_mangle]
pub extern "C" fn h_img_progress(a: u64) {
    const BATCH: u32 = 0x1000000;
    const LONG: [u32; 5] = [BATCH, 0, BATCH + 1, BATCH - 1, 2 * BATCH + 5];
    let (nodes, kinds, zero, long) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000);
    let mut b = nodes;
    let mut tree = forest(&mut b, 3, 1);
    entries_mut(&mut tree, &mut |n| {
        if !n.dir {
            n.len = if long == 1 { LONG[sv::choose("flen", kinds) as usize] } else { [1, 0, 2, 0x55, 199, 7919][sv::choose("flen", kinds) as usize] };
        }
    });
    sv::assume(distinct(&tree));
    let size = 0x50000 + 0x20000 + groups(&tree, 0x600) * GS as u64;
    let files = files(&tree);
    let m = meta(1, false);
    let mut d = Def::new(tree, 0x25, 0x123);
    if zero == 1 {
        forget(&mut d.tree);
    }
    let mut total = 0;
    entries(&d.tree, &mut |n| total += n.len as u64);
    let mut disk = Disk::new(size as usize);
    let mut seen: Vec<u8> = vec![];
    sv::digest_cap(1);
    let mut bl = WiiDiscBuilder::create(&mut disk, header("disc", 5), [0; 32]);
    let r = bl.add_partition(WiiPartType::Data, m.ticket, m.tmd, m.certs, &mut d, &mut |p| seen.push(p));
    sv::check(r.is_ok(), "a partition can be added");
    sv::check(!seen.is_empty() && seen[0] == 0, "the first report is 0");
    for i in 0..seen.len() {
        sv::check(seen[i] <= 100, "no report exceeds 100");
        if i > 0 {
            sv::check(seen[i - 1] <= seen[i], "reports never decrease");
        }
    }
    if (zero == 1 && files > 0) || total > 0 {
        sv::check(seen[seen.len() - 1] == 100, "the last report is 100");
        sv::reach("complete");
    }
    sv::reach("done");
}
fn entries_mut(v: &mut [N], f: &mut dyn FnMut(&mut N)) {
    for n in v {
        f(n);
        entries_mut(&mut n.kids, f);
    }
}

/// One operation of the disc or one callback fails while two partitions are built and the disc is finished.
/// a = nodes + 10 * mode (0: callback, 1: disc operation, 2: disc operation, with a file of more than one group, 3: the same on a disc that transfers in pieces of 0x100001 bytes, 4: the same with writes that transfer nothing, 5: an apploader of more than one group, 6: such an executable) + 100 * window of operations (50 each)
#[no_mangle]
pub extern "C" fn h_img_fail(a: u64) {
    let (nodes, mode, win) = (a % 10, a / 10 % 10, a / 100);
    let mut defs = vec![];
    for k in 0..2 {
        let mut tree = vec![];
        for i in 0..nodes {
            tree.push(N { name: vec![b'a' + i as u8], dir: false, kids: vec![], off: 0, len: [if (2..5).contains(&mode) { GDS as u32 + 5 } else { 5 }, 0x99][k] });
        }
        let long = |m| if mode == m && k == 0 { GDS } else { 0 };
        let mut d = Def::new(tree, 0x25 + long(5), 0x123 + long(6));
        if mode >= 5 {
            be32(&mut d.app, 0x14, 3);
            be32(&mut d.app, 0x18, 2 + long(5) as u32);
        }
        defs.push((d, meta(1, false)));
    }
    let disk = RefCell::new(Disk::new(0x50000 + 2 * (0x20000 + GS) + if mode >= 2 { nodes.max(1) as usize * 2 * GS } else { 0 }));
    let hdr = header("disc", 5);
    let mut region = [0u8; 32];
    sv::arr("region", &mut region);
    sv::digest_cap(2);
    match mode {
        0 => {
            let k = sv::range("which", 0, 1);
            let at = sv::range("at", 0, 6 + nodes);
            for i in 0..2 {
                defs[i].0.fail_at = if k == i as u64 { at } else { u64::MAX };
            }
        }
        _ => {
            let mut d = disk.borrow_mut();
            d.fail_at = sv::range("at", win * 50, win * 50 + 49);
            d.full = mode == 4;
            if mode == 3 {
                d.chunk = 0x100001;
            }
        }
    }
    let mut good = vec![];
    {
        let mut b = WiiDiscBuilder::create(Sh(&disk), hdr.clone(), region);
        for i in 0..2 {
            let before = disk.borrow().failed;
            let (d, m) = &mut defs[i];
            let r = b.add_partition(TYPES[i], m.ticket.clone(), m.tmd.clone(), m.certs.clone(), d, &mut |_| ());
            let failed = d.failed || disk.borrow().failed != before;
            if failed {
                sv::check(r.is_err(), "a failure is reported");
                sv::reach("failed");
            } else {
                sv::check(r.is_ok(), "a partition can be added when nothing fails");
                good.push(i);
            }
        }
        let before = disk.borrow().failed;
        let r = b.finish();
        if disk.borrow().failed != before {
            sv::check(r.is_err(), "a failure is reported");
            sv::reach("finish failed");
            sv::check(b.finish().is_ok(), "finishing again succeeds");
        } else {
            sv::check(r.is_ok(), "the disc can be finished when nothing fails");
        }
    }
    sv::digest_cap(0);
    sv::note("operations", disk.borrow().ops);
    disk.borrow_mut().fail_at = u64::MAX;
    disk.borrow_mut().chunk = u64::MAX;
    if good.len() == 2 {
        sv::reach("none failed");
    }
    let parts: Vec<_> = good.iter().map(|&i| (TYPES[i], &defs[i].0, &defs[i].1)).collect();
    read_all(&mut *disk.borrow_mut(), &hdr, &region, &parts);
    sv::reach("done");
}

/// a = writes + 10 * flush in between + 100 * number of groups - 1
/// every group a history of writes touches is valid on the disc
#[no_mangle]
pub extern "C" fn h_stream_hash(a: u64) {
    use disc_riider::verif::WiiEncryptedReadWriteStream as Stream;
    const GDS: u64 = GROUP_DATA_SIZE;
    const BDS: u64 = BLOCK_DATA_SIZE;
    let (writes, fl, groups) = (a % 10, a / 10 % 10 == 1, a / 100 % 10 + 1);
    const OFF: u64 = 0x20000;
    let mut disk = Disk::new((OFF + (groups + 1) * GROUP_SIZE) as usize);
    let mut key = [0u8; 16];
    sv::arr("key", &mut key);
    let mut touched = vec![false; groups as usize + 1];
    let h3;
    {
        let mut s = Stream::create_write(&mut disk, OFF, key, None, 0);
        for _ in 0..writes {
            let g = sv::choose("group", groups);
            let len = [0x30, GDS][sv::choose("len", 2) as usize];
            let b = sv::range("block", 0, 63);
            let o = sv::range("off", 0, BDS - 1);
            let o = if len == GDS { 0 } else { o };
            let b = if len == GDS { 0 } else { b };
            let pos = g * GDS + b * BDS + o;
            let data = sv::bytes("data", len as usize);
            sv::check(s.seek(SeekFrom::Start(pos)).is_ok(), "seek succeeds");
            sv::check(s.write_all(&data).is_ok(), "a write succeeds when the disc does");
            if len > 0 {
                touched[(pos / GDS) as usize] = true;
                touched[((pos + len - 1) / GDS) as usize] = true;
            }
            if fl {
                sv::check(s.flush().is_ok(), "a flush succeeds when the disc does");
            }
        }
        sv::check(s.flush().is_ok(), "a flush succeeds when the disc does");
        h3 = s.take_h3().unwrap();
    }
    for g in 0..touched.len() {
        if touched[g] {
            let at = (OFF + g as u64 * GROUP_SIZE) as usize;
            verify_group(&disk.data[at..at + GROUP_SIZE as usize], &key, &h3[g * 20..g * 20 + 20]);
            sv::reach("group");
            if g > 0 {
                sv::reach("later group");
            }
        }
    }
}

