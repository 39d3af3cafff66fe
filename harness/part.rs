//! Partitions with symbolic contents, to be handed to the builder.
#![allow(dead_code)]
use crate::disk::Disk;
use crate::img::*;
use crate::sv;
use crate::tree::*;
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::builder::*;
use disc_riider::structs::*;
use disc_riider::*;
use std::borrow::Cow;
use std::io::{Read, Seek};

#[derive(Debug)]
pub struct Nope;
impl std::fmt::Display for Nope {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("nope")
    }
}
impl std::error::Error for Nope {}
pub type R<T> = Result<T, PartitionAddError<Nope>>;

pub struct F {
    pub path: Vec<Vec<u8>>,
    pub data: Vec<u8>,
    pub pad: u32,
    pub served: u64,
}
pub struct Def {
    pub hdr: DiscHeader,
    pub bi2: Vec<u8>,
    pub app: Vec<u8>,
    pub dol: Vec<u8>,
    pub tree: Vec<N>,
    pub files: Vec<F>,
    pub calls: u64,
    /// the callback with this number fails
    pub fail_at: u64,
    pub failed: bool,
    next: usize,
}
pub struct Meta {
    pub ticket: Ticket,
    pub key: [u8; 16],
    pub tmd: TMD,
    pub tmd_bytes: Vec<u8>,
    pub certs: [Certificate; 3],
    pub cert_bytes: Vec<u8>,
}

/// a disc header with every field symbolic and a title of `n` ASCII characters
pub fn header(name: &str, n: usize) -> DiscHeader {
    let mut b = sv::bytes(name, 0x440);
    for i in 0..n {
        sv::assume(b[0x20 + i] > 0 && b[0x20 + i] < 0x80);
    }
    b[0x20 + n] = 0;
    match Disk::from(b).read_be::<DiscHeader>() {
        Ok(h) => h,
        Err(_) => {
            sv::check(false, "a disc header can be read");
            sv::stop()
        }
    }
}
pub fn header_bytes(h: &DiscHeader) -> Vec<u8> {
    let mut d = Disk::new(0x480);
    sv::check(d.write_be(h).is_ok(), "a disc header can be written");
    let n = d.len as usize;
    d.data[..n].to_vec()
}
/// ticket, metadata with `contents` contents and certificates, all symbolic; kinds > 0: also other signature and key types
pub fn meta(contents: usize, kinds: bool) -> Meta {
    let mut t = sv::bytes("ticket", 0x2a4);
    be32(&mut t, 0, 0x10001);
    t[0x1f1] = 0;
    if kinds {
        t[0x1f1] = sv::choose("common", 2) as u8;
    }
    let mut key = [0u8; 16];
    sv::arr("key", &mut key);
    let mut e = key;
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&t[0x1dc..0x1e4]);
    cbc_enc(&COMMON_KEYS[t[0x1f1] as usize], &iv, &mut e);
    t[0x1bf..0x1cf].copy_from_slice(&e);
    let mut m = sv::bytes("tmd", 0x1e4 + 0x24 * contents);
    be32(&mut m, 0, 0x10001);
    m[0x1de] = (contents >> 8) as u8;
    m[0x1df] = contents as u8;
    for g in [(0x104, 0x140), (0x183, 0x184), (0x1d2, 0x1d8), (0x1e2, 0x1e4)] {
        m[g.0..g.1].fill(0);
    }
    let mut c = vec![];
    for i in 0..3 {
        let (s, k) = if kinds { (sv::choose("certsig", 3) as usize, 1) } else { ([0, 1, 1][i], 1) };
        let (sl, kl) = ([512, 256, 64][s], [512, 256][k]);
        let mut b = sv::bytes("cert", 4 + sl + 60 + 64 + 4 + 64 + kl + 8 + 52);
        be32(&mut b, 0, [0x10000, 0x10001, 0x10002][s]);
        let o = 4 + sl + 60;
        be32(&mut b, o + 64, k as u32);
        b[4 + sl..o].fill(0);
        b[o + 140 + kl..].fill(0);
        c.extend_from_slice(&b);
    }
    let r = (
        Disk::from(t).read_be::<Ticket>(),
        Disk::from(m.clone()).read_be::<TMD>(),
        Disk::from(c.clone()).read_be::<[Certificate; 3]>(),
    );
    match r {
        (Ok(ticket), Ok(tmd), Ok(certs)) => Meta { ticket, key, tmd, tmd_bytes: m, certs, cert_bytes: c },
        _ => {
            sv::check(false, "metadata can be read");
            sv::stop()
        }
    }
}

fn collect(v: &[N], at: &mut Vec<Vec<u8>>, out: &mut Vec<F>) {
    for n in v {
        at.push(n.name.clone());
        if n.dir {
            collect(&n.kids, at, out);
        } else {
            let max = if n.len <= 0x90 { 0x90 } else if n.len <= 3 * BDS as u32 { 3 * BDS } else { n.len as usize };
            let mut data = sv::bytes("file", max);
            data.truncate(n.len as usize);
            out.push(F { path: at.clone(), data, pad: 0, served: 0 });
        }
        at.pop();
    }
}
/// an apploader of n bytes whose header says so
pub fn apploader(n: usize) -> Vec<u8> {
    let max = if n <= 0x100 { 0x100 } else { n };
    let mut b = sv::bytes("app", max);
    b.truncate(n);
    let s = sv::val("appsplit", 32, 0, max as u64 - 32) as u32;
    sv::assume(s <= n as u32 - 32);
    be32(&mut b, 0x14, s);
    be32(&mut b, 0x18, n as u32 - 32 - s);
    b
}
/// an executable of n bytes: the header names two sections, the second of which reaches to the end
pub fn dol(n: usize) -> Vec<u8> {
    let max = if n <= 0x200 { 0x200 } else { n };
    let mut b = sv::bytes("dol", max);
    b.truncate(n);
    b[..0x48].fill(0);
    b[0x90..0xd8].fill(0);
    let m = (n as u32 - 0x100) / 2;
    be32(&mut b, 0, 0x100);
    be32(&mut b, 0x90, m);
    be32(&mut b, 0x1c, 0x100 + m);
    be32(&mut b, 0xac, n as u32 - 0x100 - m);
    b
}
impl Def {
    /// the lengths of the files are those in the tree
    pub fn new(tree: Vec<N>, app_len: usize, dol_len: usize) -> Def {
        let mut files = vec![];
        collect(&tree, &mut vec![], &mut files);
        Def {
            hdr: header("inner", 3),
            bi2: sv::bytes("bi2", 0x2000),
            app: apploader(app_len),
            dol: dol(dol_len),
            tree,
            files,
            calls: 0,
            fail_at: u64::MAX,
            failed: false,
            next: 0,
        }
    }
    fn tick(&mut self) -> R<()> {
        let k = self.calls;
        self.calls += 1;
        if k == self.fail_at {
            self.failed = true;
            return Err(PartitionAddError::Custom(Nope));
        }
        Ok(())
    }
}
pub fn same_path(a: &[Vec<u8>], b: &[String]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= beq(&a[i], b[i].as_bytes());
    }
    r
}
impl WiiPartitionDefinition<Nope> for Def {
    fn get_disc_header(&mut self) -> R<DiscHeader> {
        self.tick()?;
        Ok(self.hdr.clone())
    }
    fn get_bi2<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        self.tick()?;
        Ok(Cow::Borrowed(&self.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        self.tick()?;
        Ok(Cow::Borrowed(&self.app))
    }
    fn get_fst(&mut self) -> R<Fst> {
        self.tick()?;
        Ok(fst(&self.tree))
    }
    fn get_dol<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        self.tick()?;
        Ok(Cow::Borrowed(&self.dol))
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> R<(Cow<'a, [u8]>, u32)> {
        self.tick()?;
        let n = self.files.len();
        for k in 0..n {
            // usually they are asked for in order
            let i = (self.next + k) % n;
            if same_path(&self.files[i].path, path) {
                self.next = i + 1;
                self.files[i].served += 1;
                let f = &self.files[i];
                return Ok((Cow::Borrowed(&f.data), f.pad));
            }
        }
        sv::check(false, "only files of the tree are asked for, by their path");
        sv::stop()
    }
}

pub const LENS: [u32; 8] = [0, 1, 0x41, 0x3f, 0x40, BDS as u32 + 9, GDS as u32 - 0x3000, GDS as u32 + 0x41];
pub fn lengths(v: &mut [N], kinds: u64) {
    for n in v {
        n.off = sv::val("oldoff", 64, 0, 1 << 40);
        if n.dir {
            lengths(&mut n.kids, kinds);
        } else {
            n.len = match kinds {
                0 => sv::val("flen", 32, 0, 0x90) as u32,
                9 => sv::val("flen", 32, 0, 3 * BDS as u64) as u32,
                // around the size of the pieces in which files are written
                11 => [0x1000000, 0x1000001, 0x2000005][sv::choose("flen", 3) as usize],
                // the contents end around the end of a group
                10 => GDS as u32 - 0x2a01 + 0x40 * sv::choose("flen", 24) as u32 + sv::choose("rest", 3) as u32,
                k => LENS[sv::choose("flen", k) as usize],
            };
        }
    }
}
pub fn room(v: &[N]) -> u64 {
    v.iter().map(|n| n.len as u64 + 0x100 + room(&n.kids)).sum()
}
pub fn distinct(v: &[N]) -> bool {
    let mut r = true;
    for i in 0..v.len() {
        for j in 0..i {
            r &= !ceq(&v[i].name, &v[j].name);
        }
        if v[i].dir {
            r &= distinct(&v[i].kids);
        }
    }
    r
}
pub fn make_tree(nodes: u64, nl: u64, kinds: u64) -> Vec<N> {
    let mut b = nodes;
    let mut t = forest(&mut b, 3, nl);
    lengths(&mut t, kinds);
    sv::assume(distinct(&t));
    t
}
pub fn groups(t: &[N], blobs: u64) -> u64 {
    (room(t) + blobs + 0x3000) / GDS as u64 + 1
}
pub const TYPES: [WiiPartType; 3] = [WiiPartType::Data, WiiPartType::Update, WiiPartType::Channel];

/// the partition as the reader shows it
pub fn verify<D: Read + Seek>(r: &mut WiiIsoReader<D>, k: usize, ty: WiiPartType, d: &Def, m: &Meta) {
    let e = r.partitions()[k].clone();
    sv::check(e.get_type() == ty, "the partition has its type");
    let mut p = match r.open_partition(e) {
        Ok(p) => p,
        Err(_) => return sv::check(false, "a built partition can be opened"),
    };
    // system files
    let h = p.get_encrypted_header().clone();
    let mut want = d.hdr.clone();
    (want.dol_off, want.fst_off, want.fst_sz, want.fst_max_sz) = (h.dol_off, h.fst_off, h.fst_sz, h.fst_max_sz);
    sv::check_eq(&header_bytes(&h), &header_bytes(&want), "the partition's header is the supplied one");
    let t = &p.get_partition_header().ticket;
    sv::check_eq(&t.title_key, &m.key, "the title key is the supplied one");
    sv::check_eq(&t.sig_issuer, &m.ticket.sig_issuer, "the ticket is the supplied one");
    match p.read_bi2(r) {
        Ok(v) => sv::check_eq(&v, &d.bi2, "the boot info is the supplied one"),
        Err(_) => sv::check(false, "the boot info can be read"),
    }
    match p.read_apploader(r) {
        Ok(v) => sv::check_eq(&v, &d.app, "the apploader is the supplied one"),
        Err(_) => sv::check(false, "the apploader can be read"),
    }
    match p.read_dol(r) {
        Ok(v) => sv::check_eq(&v, &d.dol, "the executable is the supplied one"),
        Err(_) => sv::check(false, "the executable can be read"),
    }
    match p.read_certificates(r) {
        Ok(v) => {
            let mut o = Disk::new(m.cert_bytes.len() + 0x400);
            sv::check(o.write_be(&v).is_ok(), "certificates can be written");
            sv::check_eq(&o.data[..m.cert_bytes.len()], &m.cert_bytes, "the certificates are the supplied ones");
        }
        Err(_) => sv::check(false, "the certificates can be read"),
    }
    // the tree
    let got = from_fst(p.get_fst());
    let mut offs = vec![];
    same_tree(&got, &d.tree, &mut offs);
    sv::check(offs.len() == d.files.len(), "as many files as were supplied");
    // the files
    for (f, (off, len)) in d.files.iter().zip(offs) {
        sv::check(len as usize == f.data.len(), "every file has its length");
        let mut buf = vec![];
        match p.get_crypto_reader(r).read_into_vec(off, len as u64, &mut buf) {
            Ok(()) => sv::check_eq(&buf, &f.data, "every file has its contents"),
            Err(_) => sv::check(false, "a file can be read"),
        }
        sv::reach("file");
    }
}
pub fn same_tree(a: &[N], b: &[N], out: &mut Vec<(u64, u32)>) {
    sv::check(a.len() == b.len(), "every directory has as many nodes as supplied");
    for (x, y) in a.iter().zip(b) {
        sv::check(x.dir == y.dir, "every node keeps its kind");
        sv::check(beq(&x.name, &y.name), "every node keeps its name");
        if x.dir {
            same_tree(&x.kids, &y.kids, out);
        } else {
            out.push((x.off, x.len));
        }
    }
}

pub struct Built {
    pub disk: Disk,
    pub defs: Vec<(Def, Meta)>,
    pub hdr: DiscHeader,
    pub region: [u8; 32],
}

/// a = nodes + 10 * name length + 100 * file length kinds (0: symbolic) + 1000 * (partitions - 1) + 10000 * declared lengths are zero
///   + 100000 * variation: 1 other kinds of certificates and common key, 2 padding, 3 symbolic length of the apploader, 7 of the executable,
///     4 disc with short transfers, 5 long apploader and executable, 6 several contents, 8 fixed apploader sizes, 9 file lengths around the end of a group
///   + 1000000 * files of 16 MiB and more
pub fn build(a: u64, attempts: u64) -> Built {
    let (nodes, nl, kinds, parts, zero, extra) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000 % 10, a / 10000 % 10, a / 100000 % 10);
    let mut defs = vec![];
    let mut size = 0x50000;
    for _ in 0..=parts {
        let tree = make_tree(nodes, nl, if a >= 1000000 { 11 } else if extra == 9 { 10 } else { kinds });
        let m = meta(if extra == 6 { 1 + sv::choose("contents", 3) as usize } else { 1 }, extra == 1);
        let (al, dl) = match extra {
            3 => (sv::range("applen", 32, 0x100), 0x123),
            7 => (0x25, sv::range("dollen", 0x100, 0x200)),
            5 => (BDS as u64 + 0x25, GDS as u64 + 0x33),
            _ => (0x25, 0x123),
        };
        size += 0x20000 + sv::concrete(groups(&tree, 0x600 + if extra == 5 { al + dl } else { 0 })) * GS as u64;
        let mut d = Def::new(tree, al as usize, dl as usize);
        if extra == 2 {
            for f in &mut d.files {
                f.pad = sv::val("pad", 32, 0, 0x100) as u32;
            }
        }
        if extra == 8 {
            be32(&mut d.app, 0x14, 2);
            be32(&mut d.app, 0x18, 3);
        }
        if zero == 1 {
            forget(&mut d.tree);
        }
        defs.push((d, m));
    }
    let mut disk = Disk::new(size as usize);
    if extra == 4 {
        disk.chunk = 0x1ff0;
    }
    let hdr = header("disc", 5);
    let mut region = [0u8; 32];
    sv::arr("region", &mut region);
    sv::digest_cap(attempts + parts);
    {
        let mut b = WiiDiscBuilder::create(&mut disk, hdr.clone(), region);
        for (i, (d, m)) in defs.iter_mut().enumerate() {
            let r = b.add_partition(TYPES[i], m.ticket.clone(), m.tmd.clone(), m.certs.clone(), d, &mut |_| ());
            sv::check(r.is_ok(), "a partition can be added");
        }
        sv::check(b.finish().is_ok(), "the disc can be finished");
    }
    sv::digest_cap(0);
    Built { disk, defs, hdr, region }
}
/// the lengths in the tree are not what will be supplied
pub fn forget(v: &mut [N]) {
    for n in v {
        n.len = 0;
        forget(&mut n.kids);
    }
}

pub fn read_all<D: Read + Seek>(disk: D, hdr: &DiscHeader, region: &[u8; 32], parts: &[(WiiPartType, &Def, &Meta)]) {
    let mut r = match WiiIsoReader::open(disk) {
        Ok(r) => r,
        Err(_) => return sv::check(false, "a built disc can be opened"),
    };
    sv::check_eq(&header_bytes(r.get_header()), &header_bytes(hdr), "the disc header is the supplied one");
    sv::check_eq(r.get_region(), region, "the region is the supplied one");
    sv::check(r.partitions().len() == parts.len(), "the disc lists exactly the added partitions");
    for (i, (t, d, m)) in parts.iter().enumerate() {
        verify(&mut r, i, *t, d, m);
    }
}

