//! C18, C19, C20, C25: directories as sources and destinations, through the Python module and the command line tool.
use crate::disk::Disk;
use crate::img::*;
use crate::part::*;
use crate::sv;
use crate::tree::*;
use crate::vfs;
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::builder::*;
use disc_riider::structs::*;
use disc_riider::*;
use pyo3::{Obj, Py, PyAny, PyErr};
use sha1::Digest;
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// the Python module as it is, with Python replaced by a stand-in
#[allow(dead_code, unused_imports, private_interfaces, private_bounds)]
mod py {
    include!("/repo/disc-riider-py/src/lib.rs");

    use super::{Arg, Cb};
    pub struct X(WiiIsoExtractor);
    impl X {
        pub fn open(p: &str) -> Option<X> {
            WiiIsoExtractor::new((&Arg(p.into())).into()).ok().map(X)
        }
        pub fn prepare(&mut self, s: String) -> bool {
            self.0.prepare_extract_section((&Arg(s)).into()).is_ok()
        }
        pub fn dol_hash(&mut self, s: String) -> Option<[u8; 20]> {
            self.0.get_dol_hash((&Arg(s)).into()).ok()
        }
        pub fn remove(&mut self, s: String, f: Py<PyAny>) -> bool {
            self.0.remove_files_by_callback((&Arg(s)).into(), (&Cb(f)).into()).is_ok()
        }
        pub fn extract(&mut self, p: &str, f: Py<PyAny>) -> bool {
            self.0.extract_to((&Arg(p.into())).into(), (&Cb(f)).into()).is_ok()
        }
    }
    pub fn rebuild(src: &str, dest: &str, f: Py<PyAny>) -> bool {
        rebuild_from_directory((&Arg(src.into())).into(), (&Arg(dest.into())).into(), (&Cb(f)).into()).is_ok()
    }
}
/// an argument from Python, in the form that the function takes it
pub struct Arg(String);
impl From<&Arg> for String {
    fn from(a: &Arg) -> String {
        a.0.clone()
    }
}
impl<'a> From<&'a Arg> for &'a str {
    fn from(a: &'a Arg) -> &'a str {
        &a.0
    }
}
impl From<&Arg> for PathBuf {
    fn from(a: &Arg) -> PathBuf {
        a.0.clone().into()
    }
}
impl<'a> From<&'a Arg> for &'a Path {
    fn from(a: &'a Arg) -> &'a Path {
        Path::new(&a.0)
    }
}
pub struct Cb(Py<PyAny>);
impl From<&Cb> for Py<PyAny> {
    fn from(c: &Cb) -> Py<PyAny> {
        pyo3::Python::attach(|py| c.0.clone_ref(py))
    }
}
impl<'a> From<&'a Cb> for &'a Py<PyAny> {
    fn from(c: &'a Cb) -> &'a Py<PyAny> {
        &c.0
    }
}
impl<'a> From<&'a Cb> for pyo3::Bound<'a, PyAny> {
    fn from(c: &'a Cb) -> pyo3::Bound<'a, PyAny> {
        pyo3::Python::attach(|py| c.0.clone_ref(py)).into()
    }
}
/// the command line tool as it is, given parsed arguments
#[allow(dead_code, unused_imports)]
mod tool {
    include!("/repo/iso-tool/src/main.rs");

    fn run(c: Commands) -> bool {
        ::clap::give(c);
        main().is_ok()
    }
    pub fn sections(f: &str) -> bool {
        run(Commands::Sections { filename: f.into() })
    }
    pub fn extract_sys(f: &str, d: &str, s: String) -> bool {
        run(Commands::ExtractSys { filename: f.into(), destination: d.into(), section: s })
    }
    pub fn print_files(f: &str, s: String) -> bool {
        run(Commands::PrintFiles { filename: f.into(), section: s })
    }
    pub fn rebuild(src: &str, dest: &str) -> bool {
        run(Commands::Rebuild { src_dir: src.into(), dest_file: dest.into() })
    }
}
fn quiet() -> Py<PyAny> {
    Py::callable(|_| Ok(Obj::None))
}

// ---------------------------------------------------------------------------------------------- directories as sources

struct D {
    name: Vec<u8>,
    dir: bool,
    kids: Vec<D>,
    size: u64,
}
/// a name as file systems allow it: any bytes but zero and slash, neither `.` nor `..`
fn raw_name(max: u64) -> Vec<u8> {
    let n = 1 + sv::choose("namelen", max);
    let v: Vec<u8> = (0..n)
        .map(|_| {
            let c = sv::val("name", 8, 1, 255) as u8;
            sv::assume(c != b'/');
            c
        })
        .collect();
    sv::assume(!beq(&v, b".") & !beq(&v, b".."));
    v
}
fn dir_tree(budget: &mut u64, depth: u64, nl: u64, at: usize) -> Vec<D> {
    let mut v: Vec<D> = vec![];
    while *budget > 0 {
        let k = sv::choose("shape", if depth > 1 { 3 } else { 2 });
        if k == 0 {
            break;
        }
        *budget -= 1;
        let name = raw_name(nl);
        let mut other = true;
        for x in &v {
            other &= !beq(&x.name, &name);
        }
        sv::assume(other);
        let id = vfs::add(at, &name, k == 2, vec![]);
        if k == 1 {
            let size = sv::val("size", 64, 0, 1 << 40);
            vfs::fs().nodes[id].size = Some(size);
            v.push(D { name, dir: false, kids: vec![], size });
        } else {
            let kids = dir_tree(budget, depth - 1, nl, id);
            v.push(D { name, dir: true, kids, size: 0 });
        }
    }
    v
}
fn is_text(v: &[u8]) -> bool {
    let asc = |i: usize| v[i] < 0x80;
    let cont = |i: usize| v[i] & 0xc0 == 0x80;
    let two = |i: usize| (v[i] >= 0xc2) & (v[i] <= 0xdf) & cont(i + 1);
    match v.len() {
        1 => asc(0),
        2 => asc(0) & asc(1) | two(0),
        3 => {
            let (a, b) = (v[0], v[1]);
            let three = (a & 0xf0 == 0xe0) & cont(1) & cont(2) & !((a == 0xe0) & (b < 0xa0)) & !((a == 0xed) & (b > 0x9f));
            asc(0) & asc(1) & asc(2) | asc(0) & two(1) | two(0) & asc(2) | three
        }
        _ => unreachable!(),
    }
}
fn has_files(d: &D) -> bool {
    !d.dir || d.kids.iter().any(has_files)
}
fn dfiles(v: &[D]) -> u64 {
    v.iter().map(|n| if n.dir { dfiles(&n.kids) } else { 1 }).sum()
}
/// (some entry must be reported as an error, directories collide)
fn judge(v: &[D]) -> (bool, bool) {
    let (mut bad, mut coll) = (false, false);
    for i in 0..v.len() {
        bad |= !is_text(&v[i].name) | (v[i].size > u32::MAX as u64);
        for j in 0..i {
            if !has_files(&v[i]) || !has_files(&v[j]) {
                continue;
            }
            let c = ceq(&v[i].name, &v[j].name);
            if v[i].dir && v[j].dir {
                coll |= c;
            } else {
                bad |= c;
            }
        }
        let (b, c) = judge(&v[i].kids);
        bad |= b;
        coll |= c;
    }
    (bad, coll)
}
fn equal(got: &[N], want: &[D]) -> bool {
    let w: Vec<&D> = want.iter().filter(|d| has_files(d)).collect();
    if got.len() != w.len() {
        return false;
    }
    let mut r = true;
    for d in w {
        let mut any = false;
        for g in got {
            if g.dir != d.dir || g.name.len() != d.name.len() {
                continue;
            }
            any |= beq(&g.name, &d.name) & (d.dir | (g.len as u64 == d.size)) & equal(&g.kids, if d.dir { &d.kids } else { &[] });
        }
        r &= any;
    }
    r
}
/// a = nodes + 10 * name length + 100 * a call may fail
#[no_mangle]
pub extern "C" fn h_dir_tree(a: u64) {
    vfs::on();
    let w = vfs::add(0, b"w", true, vec![]);
    let mut n = a % 10;
    let t = dir_tree(&mut n, 3, a / 10 % 10, w);
    let (bad, coll) = judge(&t);
    if a / 100 == 1 {
        vfs::fs().fail_at = sv::choose("fail", 16);
    }
    match verif::build_fst_from_directory_tree("/w") {
        Ok(f) => {
            let got = from_fst(&f);
            sv::check(!bad, "colliding names, oversized files and names that are no text are reported");
            sv::check(files(&got) == dfiles(&t), "no file is dropped");
            sv::check(sorted(&got), "every directory of the table is sorted");
            sv::check(coll | equal(&got, &t), "the table has exactly the files of the directory");
            sv::reach("ok");
        }
        Err(_) => {
            sv::check(bad | coll | vfs::fs().failed, "a directory that can be represented is accepted");
            sv::reach("error");
        }
    }
}

fn ticket_bytes(m: &Meta) -> Vec<u8> {
    let mut d = Disk::new(0x2a4);
    sv::check(d.write_be(&m.ticket).is_ok(), "a ticket can be written");
    d.data
}
/// puts a partition's pieces where the builder looks for them; returns the nodes of what is required
fn lay_out(at: usize, d: &Def, m: &Meta, region: &[u8]) -> Vec<usize> {
    let data = vfs::add(at, b"DATA", true, vec![]);
    let disc = vfs::add(data, b"disc", true, vec![]);
    let sys = vfs::add(data, b"sys", true, vec![]);
    let files = vfs::add(data, b"files", true, vec![]);
    let v = vec![
        vfs::add(disc, b"region.bin", false, region.to_vec()),
        vfs::add(sys, b"boot.bin", false, header_bytes(&d.hdr)),
        vfs::add(sys, b"bi2.bin", false, d.bi2.clone()),
        vfs::add(sys, b"apploader.img", false, d.app.clone()),
        vfs::add(sys, b"main.dol", false, d.dol.clone()),
        vfs::add(data, b"ticket.bin", false, ticket_bytes(m)),
        vfs::add(data, b"tmd.bin", false, m.tmd_bytes.clone()),
        vfs::add(data, b"cert.bin", false, m.cert_bytes.clone()),
        files,
    ];
    let mut it = d.files.iter();
    put(&d.tree, files, &mut it);
    v
}
fn put(t: &[N], at: usize, it: &mut std::slice::Iter<F>) {
    for n in t {
        let data = if n.dir { vec![] } else { it.next().map_or(vec![], |f| f.data.clone()) };
        let k = vfs::add(at, &n.name, n.dir, data);
        put(&n.kids, k, it);
    }
}
fn no_dots(v: &[N]) -> bool {
    let mut r = true;
    for n in v {
        r &= !beq(&n.name, b".") & !beq(&n.name, b"..") & no_dots(&n.kids);
    }
    r
}
/// where a path is in a tree, if it is a file
fn find<'a>(v: &'a [N], path: &[Vec<u8>]) -> Option<&'a N> {
    let n = v.iter().find(|n| beq(&n.name, &path[0]))?;
    if path.len() > 1 {
        return find(&n.kids, &path[1..]);
    }
    (!n.dir).then_some(n)
}
/// the disc's first partition has exactly these files and the system files of d
fn holds<R: Read + Seek>(rs: R, d: &Def, m: &Meta, region: &[u8], kept: &[bool]) {
    let mut r = match WiiIsoReader::open(rs) {
        Ok(r) => r,
        Err(_) => return sv::check(false, "a rebuilt disc can be opened"),
    };
    sv::check_eq(r.get_region(), region, "the region is that of the directory");
    sv::check(r.partitions().len() == 1, "the disc has one partition");
    let e = r.partitions()[0].clone();
    sv::check(e.get_type() == WiiPartType::Data, "the partition is the data partition");
    let mut p = match r.open_partition(e) {
        Ok(p) => p,
        Err(_) => return sv::check(false, "a rebuilt partition can be opened"),
    };
    let h = p.get_encrypted_header().clone();
    let mut want = d.hdr.clone();
    (want.dol_off, want.fst_off, want.fst_sz, want.fst_max_sz) = (h.dol_off, h.fst_off, h.fst_sz, h.fst_max_sz);
    sv::check_eq(&header_bytes(&h), &header_bytes(&want), "the partition's header is that of the directory");
    sv::check_eq(&p.get_partition_header().ticket.title_key, &m.key, "the title key is that of the directory");
    match (p.read_bi2(&mut r), p.read_apploader(&mut r), p.read_dol(&mut r)) {
        (Ok(b), Ok(a), Ok(x)) => {
            sv::check_eq(&b, &d.bi2, "the boot info is that of the directory");
            sv::check_eq(&a, &d.app, "the apploader is that of the directory");
            sv::check_eq(&x, &d.dol, "the executable is that of the directory");
        }
        _ => sv::check(false, "the system files can be read"),
    }
    let got = from_fst(p.get_fst());
    sv::check(sorted(&got), "every directory is sorted");
    sv::check(files(&got) == kept.iter().filter(|k| **k).count() as u64, "the disc has as many files as the directory");
    for (f, k) in d.files.iter().zip(kept) {
        if !*k {
            continue;
        }
        let Some(n) = find(&got, &f.path) else { return sv::check(false, "every file of the directory is on the disc") };
        sv::check(n.len as usize == f.data.len(), "every file has its length");
        let mut buf = vec![];
        match p.get_crypto_reader(&mut r).read_into_vec(n.off, n.len as u64, &mut buf) {
            Ok(()) => sv::check_eq(&buf, &f.data, "every file has its contents"),
            Err(_) => sv::check(false, "a file can be read"),
        }
        sv::reach("file");
    }
}

/// a as in make_tree (nodes + 10 * name length + 100 * length kinds) + 1000 * mode: 0 everything is there, 1 something is
/// missing, 2 an operation fails (10000 * window of 800 operations), 3 through the command line tool, 4 through the Python module
#[no_mangle]
pub extern "C" fn h_dir_build(a: u64) {
    let (nodes, nl, kinds, mode) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000 % 10);
    let tree = make_tree(nodes, nl, kinds);
    sv::assume(no_dots(&tree));
    let m = meta(1, false);
    let d = Def::new(tree, 0x25, 0x123);
    let region = sv::bytes("region", 32);
    vfs::on();
    let top = vfs::add(0, b"d", true, vec![]);
    let need = lay_out(top, &d, &m, &region);
    if mode == 1 {
        let k = need[sv::choose("missing", need.len() as u64) as usize];
        vfs::fs().nodes[k].parent = usize::MAX;
    }
    if mode == 2 {
        vfs::fs().fail_at = sv::range("fail", a / 10000 * 800, a / 10000 * 800 + 799);
    }
    let mut disk = Disk::new(0x50000 + 0x20000 + sv::concrete(groups(&d.tree, 0x600)) as usize * GS);
    sv::digest_cap(1);
    let r = match mode {
        3 => tool::rebuild("/d", "/r"),
        4 => py::rebuild("/d", "/r", quiet()),
        _ => build_from_directory(Path::new("/d"), &mut disk, &mut |_| ()).is_ok(),
    };
    sv::digest_cap(0);
    if mode == 1 {
        sv::check(!r, "a missing file is reported");
    }
    // a call may fail without harm, such as asking for a size in order to reserve memory
    if !r && (mode == 1 || vfs::fs().failed) {
        return sv::reach("reported");
    }
    sv::check(r, "a complete directory can be built");
    if mode >= 3 {
        let n = vfs::at(&[b"r"]).unwrap_or(0);
        disk = Disk::from(std::mem::take(&mut vfs::fs().nodes[n].data));
    }
    let kept = vec![true; d.files.len()];
    holds(&mut disk, &d, &m, &region, &kept);
    sv::reach("built");
}

/// directories whose names differ only in case: nothing is lost
#[no_mangle]
pub extern "C" fn h_dir_merge(a: u64) {
    let f = |nm: Vec<u8>| N { name: nm, dir: false, kids: vec![], off: 0, len: 5 };
    let g = |nm: Vec<u8>, k: N| N { name: nm, dir: true, kids: vec![k], off: 0, len: 0 };
    let tree = vec![g(name("d", a), f(name("f", a))), g(name("d", a), f(name("f", a)))];
    sv::assume(!beq(&tree[0].name, &tree[1].name) & ceq(&tree[0].name, &tree[1].name) & no_dots(&tree));
    let m = meta(1, false);
    let d = Def::new(tree, 0x25, 0x123);
    let region = sv::bytes("region", 32);
    vfs::on();
    let top = vfs::add(0, b"d", true, vec![]);
    lay_out(top, &d, &m, &region);
    let mut disk = Disk::new(0x70000 + GS);
    sv::digest_cap(1);
    let r = build_from_directory(Path::new("/d"), &mut disk, &mut |_| ()).is_ok();
    sv::digest_cap(0);
    if !r {
        return sv::reach("refused");
    }
    holds(&mut disk, &d, &m, &region, &[true, true]);
}

// ------------------------------------------------------------------------------------- directories as destinations

/// total number of plain files below a node
fn plain_files(top: usize) -> u64 {
    let n = vfs::fs().nodes.len();
    (1..n).filter(|&i| !vfs::fs().nodes[i].dir && vfs::below(i, top)).count() as u64
}
fn inside(top: usize) -> bool {
    let l = vfs::fs().log.clone();
    l.iter().all(|&n| vfs::below(n, top))
}
fn content(path: &[&[u8]], want: &[u8], m: &str) {
    match vfs::at(path) {
        Some(n) if !vfs::fs().nodes[n].dir => sv::check_eq(&vfs::fs().nodes[n].data, want, m),
        _ => sv::check(false, m),
    }
}
fn sym_case(s: &str) -> String {
    s.chars().map(|c| if sv::choose("case", 2) == 1 { c.to_ascii_lowercase() } else { c }).collect()
}

/// a as in `build` (nodes + 10 * name length + 100 * length kinds, never 0 or 9) + 1000000 * mode: 0 no removal, 1 removal, 2 rebuild
/// after removal, 3 rebuild, 4 the callbacks fail, 5 a file operation fails (10000000 * window of 800 operations)
#[no_mangle]
pub extern "C" fn h_ext_rt(a: u64) {
    let mode = a / 1000000 % 10;
    let b = build(a % 1000000, 1);
    let (d, m) = &b.defs[0];
    sv::assume(no_dots(&d.tree));
    vfs::on();
    let mut img = b.disk.data;
    img.truncate(sv::concrete(b.disk.len) as usize);
    let i = vfs::add(0, b"i", false, img);
    let top = vfs::add(0, b"o", true, vec![]);
    let Some(mut x) = py::X::open("/i") else { return sv::check(false, "a disc can be opened") };
    sv::check(x.prepare("DATA".into()), "a section can be prepared");
    let mut kept = vec![true; d.files.len()];
    if mode == 1 || mode == 2 || mode == 4 {
        for k in &mut kept {
            *k = sv::choose("keep", 2) == 1;
        }
        let plan: Vec<(Vec<u8>, bool)> = d.files.iter().zip(&kept).map(|(f, k)| (f.path.join(&b'/'), !*k)).collect();
        let seen = Rc::new(RefCell::new(vec![0u64; plan.len()]));
        let s2 = seen.clone();
        let ok = x.remove(
            "DATA".into(),
            Py::callable(move |o| {
                let Obj::Str(p) = o else {
                    sv::check(false, "the removal callback gets a path");
                    sv::stop()
                };
                for (i, (q, del)) in plan.iter().enumerate() {
                    if beq(q, p.as_bytes()) {
                        s2.borrow_mut()[i] += 1;
                        if mode == 4 {
                            return Err(PyErr("no".into()));
                        }
                        return Ok(Obj::Bool(*del));
                    }
                }
                sv::check(false, "the removal callback is asked about files of the disc");
                sv::stop()
            }),
        );
        sv::check(ok, "files can be removed");
        sv::check(seen.borrow().iter().all(|n| *n == 1), "the removal callback is asked about every file once");
        if mode == 4 {
            kept = vec![true; d.files.len()];
        }
    }
    if mode == 5 {
        vfs::fs().fail_at = vfs::fs().ops + sv::range("fail", a / 10000000 * 800, a / 10000000 * 800 + 799);
    }
    let ok = x.extract("/o", Py::callable(move |_| if mode == 4 { Err(PyErr("no".into())) } else { Ok(Obj::None) }));
    if vfs::fs().failed && !ok {
        return sv::reach("reported");
    }
    // an operation may fail without harm: making a directory that is there already
    sv::check(ok, "a disc can be extracted");
    // the image's own bytes
    let img = &vfs::fs().nodes[i].data;
    let mut r = match WiiIsoReader::open(Disk::from(img.clone())) {
        Ok(r) => r,
        Err(_) => return sv::check(false, "a disc can be read"),
    };
    let e = r.partitions()[0].clone();
    let at = sv::concrete(e.get_offset()) as usize;
    let mut p = match r.open_partition(e) {
        Ok(p) => p,
        Err(_) => return sv::check(false, "a partition can be opened"),
    };
    let h = p.get_encrypted_header().clone();
    let mut fst = vec![];
    let got = p.get_crypto_reader(&mut r).read_into_vec(*h.fst_off, *h.fst_sz, &mut fst);
    sv::check(got.is_ok(), "the file system table can be read");
    const O: &[u8] = b"o";
    const DATA: &[u8] = b"DATA";
    const SYS: &[u8] = b"sys";
    content(&[O, DATA, b"disc", b"header.bin"], &header_bytes(&b.hdr), "the disc header is extracted");
    content(&[O, DATA, b"disc", b"region.bin"], &b.region, "the region is extracted");
    content(&[O, DATA, SYS, b"boot.bin"], &header_bytes(&h), "the boot header is extracted");
    content(&[O, DATA, SYS, b"bi2.bin"], &d.bi2, "the boot info is extracted");
    content(&[O, DATA, SYS, b"apploader.img"], &d.app, "the apploader is extracted");
    content(&[O, DATA, SYS, b"main.dol"], &d.dol, "the executable is extracted");
    content(&[O, DATA, SYS, b"fst.bin"], &fst, "the file system table is extracted");
    content(&[O, DATA, b"ticket.bin"], &img[at..at + 0x2a4], "the ticket is extracted");
    let g = |o: usize| u32::from_be_bytes([img[at + o], img[at + o + 1], img[at + o + 2], img[at + o + 3]]) as usize;
    let tmd = at + (sv::concrete(g(0x2a8) as u64) as usize) * 4;
    content(&[O, DATA, b"tmd.bin"], &img[tmd..tmd + m.tmd_bytes.len()], "the metadata is extracted");
    content(&[O, DATA, b"cert.bin"], &m.cert_bytes, "the certificates are extracted");
    for (f, k) in d.files.iter().zip(&kept) {
        let mut path: Vec<&[u8]> = vec![O, DATA, b"files"];
        for c in &f.path {
            path.push(c);
        }
        if *k {
            content(&path, &f.data, "every file is extracted");
            sv::reach("file");
        } else {
            sv::check(vfs::at(&path).is_none(), "removed files are left out");
            sv::reach("removed");
        }
    }
    let n = kept.iter().filter(|k| **k).count() as u64;
    sv::check(plain_files(top) == 10 + n, "nothing else is extracted");
    sv::check(inside(top), "nothing is written elsewhere");
    if mode == 2 || mode == 3 {
        sv::digest_cap(1);
        sv::check(py::rebuild("/o", "/r", quiet()), "an extracted disc can be rebuilt");
        sv::digest_cap(0);
        let k = vfs::at(&[b"r"]).unwrap_or(0);
        let disk = Disk::from(std::mem::take(&mut vfs::fs().nodes[k].data));
        let region = b.region;
        holds(disk, d, m, &region, &kept);
        sv::reach("rebuilt");
    }
    sv::reach("done");
}

// ------------------------------------------------------------------------------------------------- hand-made images

struct Hand {
    ty: u32,
    id: u8,
    fst: Vec<u8>,
}
const DOL: usize = 0x3000;
const FST: usize = 0x4000;
fn plain_part(h: &Hand) -> Vec<u8> {
    let mut p = vec![0u8; GDS];
    let n = (h.fst.len() as u32 + 3) & !3;
    inner_header(&mut p, DOL as u32, FST as u32, n);
    p[0] = b'0' + h.id;
    be32(&mut p, 0x18, 0x5D1C9EA3);
    p[0x440] = h.id;
    p[DOL + 0xe0] = h.id;
    p[FST..FST + h.fst.len()].copy_from_slice(&h.fst);
    p[0x8000] = h.id;
    p
}
/// one table entry per part; those from `split` on are in the second table
fn hand_disc(parts: &[Hand], split: usize, m: &Meta) -> Vec<u8> {
    const STEP: usize = DATA + GS;
    let mut d = vec![0u8; PART + parts.len() * STEP];
    be32(&mut d, 0x18, 0x5D1C9EA3);
    let (t0, t1) = (0x40020, 0x40100);
    be32(&mut d, 0x40000, split as u32);
    be32(&mut d, 0x40004, t0 >> 2);
    be32(&mut d, 0x40008, (parts.len() - split) as u32);
    be32(&mut d, 0x4000c, t1 >> 2);
    for (k, h) in parts.iter().enumerate() {
        let at = PART + k * STEP;
        let e = if k < split { t0 as usize + 8 * k } else { t1 as usize + 8 * (k - split) };
        be32(&mut d, e, (at >> 2) as u32);
        be32(&mut d, e + 4, h.ty);
        let mut ph = part_header(&[7; 16], &[0, 1, 0, 0, b'R', b'S', b'V', b'0' + h.id], (GDS >> 2) as u32);
        be32(&mut ph, 0x2ac, m.cert_bytes.len() as u32);
        d[at..at + 0x2c0].copy_from_slice(&ph);
        d[at + 0x2c0..at + 0x2c0 + m.tmd_bytes.len()].copy_from_slice(&m.tmd_bytes);
        d[at + 0x4e0..at + 0x4e0 + m.cert_bytes.len()].copy_from_slice(&m.cert_bytes);
        let g = enc_group(&plain_part(h), &[7; 16], &[0x55; 0x400]);
        d[at + DATA..at + STEP].copy_from_slice(&g);
    }
    d
}
/// a file system table: (directory?, end of the directory, name)
fn table(nodes: &[(bool, u32, Vec<u8>)]) -> Vec<u8> {
    let n = nodes.len() + 1;
    let mut t = vec![0u8; 12 * n];
    t[0] = 1;
    be32(&mut t, 8, n as u32);
    let mut names = vec![];
    for (i, (dir, end, nm)) in nodes.iter().enumerate() {
        let o = 12 * (i + 1);
        be32(&mut t, o, names.len() as u32);
        t[o] = *dir as u8;
        be32(&mut t, o + 4, if *dir { 0 } else { 0x8000 >> 2 });
        be32(&mut t, o + 8, if *dir { *end } else { 1 });
        names.extend_from_slice(nm);
        names.push(0);
    }
    t.extend_from_slice(&names);
    t
}
fn disc_name(len: u64, wide: bool) -> Vec<u8> {
    (0..len).map(|_| sv::val("name", 8, 0, if wide { 255 } else { 127 }) as u8).collect()
}

/// whatever the names are: a = length of the names + 10 * shape + 100 * any bytes, else ASCII
#[no_mangle]
pub extern "C" fn h_ext_names(a: u64) {
    let (len, wide) = (a % 10, a / 100 % 10 == 1);
    let nm = || disc_name(len, wide);
    let t = match a / 10 % 10 {
        0 => table(&[(false, 0, nm())]),
        1 => table(&[(true, 3, nm()), (false, 0, nm())]),
        2 => table(&[(false, 0, nm()), (false, 0, nm())]),
        3 => table(&[(true, 4, b"a".to_vec()), (true, 4, nm()), (false, 0, nm())]),
        _ => table(&[(true, 5, nm()), (true, 5, nm()), (true, 5, nm()), (false, 0, b"f".to_vec())]),
    };
    vfs::on();
    let img = hand_disc(&[Hand { ty: 0, id: 0, fst: t }], 1, &meta(1, false));
    vfs::add(0, b"i", false, img);
    let top = vfs::add(0, b"o", true, vec![]);
    let x = vfs::add(0, b"x", true, vec![]);
    vfs::add(x, b"y", false, vec![1]);
    let Some(mut x) = py::X::open("/i") else { return sv::check(false, "a disc can be opened") };
    if !x.prepare("DATA".into()) {
        return sv::reach("unreadable");
    }
    let r = x.extract("/o", quiet());
    sv::check(inside(top), "extraction writes at or below the destination only");
    sv::reach(if r { "extracted" } else { "refused" });
}
/// the same for the command line tool
#[no_mangle]
pub extern "C" fn h_ext_sys(a: u64) {
    let t = table(&[(true, 3, disc_name(a, false)), (false, 0, disc_name(a, false))]);
    vfs::on();
    let img = hand_disc(&[Hand { ty: 0, id: 0, fst: t }], 1, &meta(1, false));
    vfs::add(0, b"i", false, img);
    let top = vfs::add(0, b"o", true, vec![]);
    let r = tool::extract_sys("/i", "/o", "DATA".into());
    sv::check(inside(top), "extraction writes at or below the destination only");
    sv::reach(if r { "extracted" } else { "refused" });
}
/// files that reach to or over the end of the data: a = distance of the start from the end
#[no_mangle]
pub extern "C" fn h_ext_short(a: u64) {
    let mut t = table(&[(false, 0, b"f".to_vec())]);
    let off = GDS as u64 - a;
    let len = sv::choose("len", 0x20) + a - 0x10;
    be32(&mut t, 16, (off >> 2) as u32);
    be32(&mut t, 20, len as u32);
    vfs::on();
    let img = hand_disc(&[Hand { ty: 0, id: 0, fst: t }], 1, &meta(1, false));
    vfs::add(0, b"i", false, img);
    vfs::add(0, b"o", true, vec![]);
    let Some(mut x) = py::X::open("/i") else { return sv::check(false, "a disc can be opened") };
    sv::check(x.prepare("DATA".into()), "a section can be prepared");
    if x.extract("/o", quiet()) {
        match vfs::at(&[b"o", b"DATA", b"files", b"f"]) {
            Some(n) => sv::check(vfs::fs().nodes[n].data.len() as u64 == len, "an extracted file is complete"),
            None => sv::check(false, "a file is extracted"),
        }
        sv::reach("extracted");
    } else {
        sv::reach("refused");
    }
}

const NAMES: [&[u8]; 3] = [b"data", b"update", b"channel"];
/// the type a section name stands for, as a value: 3 is none
fn meant(s: &[u8]) -> u32 {
    let mut r = 3;
    for (i, n) in NAMES.iter().enumerate() {
        if ceq(s, n) {
            r = i as u32;
        }
    }
    r
}
/// n characters, any ASCII or, if wide, also two byte characters
fn section_name(n: u64, wide: bool) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        if wide && sv::choose("wide", 2) == 1 {
            v.push(sv::val("sec", 8, 0xc2, 0xdf) as u8);
            v.push(sv::val("sec", 8, 0x80, 0xbf) as u8);
        } else {
            v.push(sv::val("sec", 8, 0, 0x7f) as u8);
        }
    }
    v
}
fn num(t: WiiPartType) -> u32 {
    match t {
        WiiPartType::Data => 0,
        WiiPartType::Update => 1,
        WiiPartType::Channel => 2,
    }
}
/// a = length + 10 * wide
#[no_mangle]
pub extern "C" fn h_sec_name(a: u64) {
    let v = section_name(a % 10, a / 10 == 1);
    let want = meant(&v);
    let x = WiiPartType::try_from_str(&s(&v)).map_or(3, num);
    sv::check(x == want, "the library takes section names ignoring case and nothing else");
    #[cfg(sv_parse_section)]
    {
        let y = py::parse_section(&s(&v)).map_or(3, num);
        sv::check(y == want, "the Python module takes section names ignoring case and nothing else");
    }
    sv::reach(if sv::concrete((want < 3) as u64) == 1 { "known" } else { "unknown" });
}
const UPPER: [&[u8]; 3] = [b"DATA", b"UPDATE", b"CHANNEL"];
/// the image: P parts of any types, in one or two tables
fn typed(parts: u64) -> Vec<u32> {
    let ty: Vec<u32> = (0..parts).map(|_| sv::choose("type", 3) as u32).collect();
    let split = sv::choose("split", parts + 1) as usize;
    let hands: Vec<Hand> = ty
        .iter()
        .enumerate()
        .map(|(i, t)| Hand { ty: *t, id: i as u8, fst: table(&[(false, 0, vec![b'p', b'0' + i as u8])]) })
        .collect();
    vfs::add(0, b"i", false, hand_disc(&hands, split, &meta(1, false)));
    vfs::add(0, b"o", true, vec![]);
    ty
}
/// everything below at is that of this part
fn is_part(at: &[&[u8]], k: usize, all: bool) {
    let f = |p: &[&[u8]]| {
        let mut v = at.to_vec();
        v.extend_from_slice(p);
        vfs::at(&v).map(|n| vfs::fs().nodes[n].data.clone()).unwrap_or_default()
    };
    let k = k as u8;
    let m = "a section is the first partition of its type";
    let b = f(&[b"sys", b"boot.bin"]);
    sv::check(b.len() == 0x440 && b[0] == b'0' + k, m);
    let b = f(&[b"sys", b"bi2.bin"]);
    sv::check(b.len() == 0x2000 && b[0] == k, m);
    if !all {
        return;
    }
    sv::check_eq(&f(&[b"files", &[b'p', b'0' + k]]), &[k], m);
    let b = f(&[b"ticket.bin"]);
    sv::check(b.len() == 0x2a4 && b[0x1e3] == b'0' + k, m);
}
/// one section by its name, through the Python module: a = length + 10 * wide + 100 * partitions
#[no_mangle]
pub extern "C" fn h_sec_py(a: u64) {
    let v = section_name(a % 10, a / 10 % 10 == 1);
    let want = meant(&v);
    vfs::on();
    let ty = typed(a / 100 % 10);
    let first = ty.iter().position(|t| *t == want);
    let Some(mut x) = py::X::open("/i") else { return sv::check(false, "a disc can be opened") };
    sv::check(x.dol_hash(s(&v)).is_none(), "a section that was not prepared is refused");
    sv::check(!x.remove(s(&v), quiet()), "a section that was not prepared is refused");
    let ok = x.prepare(s(&v));
    sv::check(ok == first.is_some(), "exactly the sections that exist can be prepared");
    if !ok {
        sv::check(x.dol_hash(s(&v)).is_none(), "a section that was not prepared is refused");
        sv::check(!x.remove(s(&v), quiet()), "a section that was not prepared is refused");
        sv::reach(if sv::concrete((want < 3) as u64) == 1 { "absent" } else { "unknown" });
        return;
    }
    sv::check(x.remove(s(&v), Py::callable(|_| Ok(Obj::Bool(false)))), "a prepared section can be used");
    let mut dol = [0u8; 0x100];
    dol[0xe0] = first.unwrap_or(0) as u8;
    let mut h = sha1::Sha1::new();
    h.update(&dol);
    let want_hash: [u8; 20] = h.finalize().into();
    sv::check(x.dol_hash(s(&v)) == Some(want_hash), "the digest of a prepared section's executable is that of the first partition of its type");
    sv::check(x.extract("/o", quiet()), "a section can be extracted");
    is_part(&[b"o", UPPER[want as usize]], first.unwrap_or(0), true);
    sv::reach("present");
}
/// several sections at once: a = partitions
#[no_mangle]
pub extern "C" fn h_sec_multi(a: u64) {
    vfs::on();
    let ty = typed(a);
    let Some(mut x) = py::X::open("/i") else { return sv::check(false, "a disc can be opened") };
    let mut on = [false; 3];
    for k in 0..3 {
        on[k] = sv::choose("prepare", 2) == 1;
        if on[k] {
            let name = if sv::choose("case", 2) == 1 { UPPER[k] } else { NAMES[k] };
            on[k] = x.prepare(s(name));
            sv::check(on[k] == ty.contains(&(k as u32)), "exactly the sections that exist can be prepared");
        }
    }
    // removal concerns the named section only
    let cut = sv::choose("cut", 4) as usize;
    if cut < 3 {
        sv::check(x.remove(s(NAMES[cut]), Py::callable(|_| Ok(Obj::Bool(true)))) == on[cut], "exactly the prepared sections can be changed");
    }
    sv::check(x.extract("/o", quiet()), "the sections can be extracted");
    for k in 0..3 {
        let dir = vfs::at(&[b"o", UPPER[k]]);
        sv::check(dir.is_some() == on[k], "exactly the prepared sections are extracted");
        if let (true, Some(p)) = (on[k], ty.iter().position(|t| *t == k as u32)) {
            is_part(&[b"o", UPPER[k]], p, cut != k);
            if cut == k {
                sv::check(plain_files(dir.unwrap_or(0)) == 10, "removed files are left out");
            }
        }
    }
    sv::reach("done");
}
/// the command line tool: a = length + 10 * wide + 100 * partitions
#[no_mangle]
pub extern "C" fn h_sec_tool(a: u64) {
    let v = section_name(a % 10, a / 10 % 10 == 1);
    let want = meant(&v);
    vfs::on();
    let ty = typed(a / 100 % 10);
    let first = ty.iter().position(|t| *t == want);
    let r = tool::extract_sys("/i", "/o", s(&v));
    sv::check(r == first.is_some(), "exactly the sections that exist can be extracted");
    let p = tool::print_files("/i", s(&v));
    sv::check(p == first.is_some(), "exactly the sections that exist can be listed");
    if let Some(k) = first {
        is_part(&[b"o"], k, false);
        let out = &vfs::fs().out;
        let mut listed = 0;
        for w in out.windows(2) {
            for i in 0..ty.len() {
                if w == [b'p', b'0' + i as u8] {
                    sv::check(i == k, "the files of the section are listed");
                    listed += 1;
                }
            }
        }
        sv::check(listed == 1, "the files of the section are listed");
        return sv::reach("present");
    }
    sv::reach(if sv::concrete((want < 3) as u64) == 1 { "absent" } else { "unknown" });
}

// -------------------------------------------------------------------------------------------------------- listings

/// the nodes of a table, in order; ends are those of the whole table
fn rows(v: &[N], out: &mut Vec<(bool, u32, Vec<u8>)>) {
    for x in v {
        let at = out.len();
        out.push((x.dir, 0, x.name.clone()));
        rows(&x.kids, out);
        out[at].1 = out.len() as u32 + 1;
    }
}
fn listing(v: &[N], depth: usize, out: &mut Vec<u8>) {
    for x in v {
        for _ in 0..depth {
            out.extend_from_slice(b"  ");
        }
        out.extend_from_slice(&x.name);
        out.push(b'\n');
        listing(&x.kids, depth + 1, out);
    }
}
/// the files of a section: a = nodes + 10 * length of names + 100 * depth + 1000 * which
#[no_mangle]
pub extern "C" fn h_list_files(a: u64) {
    let mut n = a % 10;
    let t = forest(&mut n, a / 100 % 10, a / 10 % 10);
    let mut r = vec![];
    rows(&t, &mut r);
    vfs::on();
    // the section is the second partition of the image
    let parts = [Hand { ty: 1, id: 1, fst: table(&[(false, 0, b"no".to_vec())]) }, Hand { ty: 0, id: 0, fst: table(&r) }];
    vfs::add(0, b"i", false, hand_disc(&parts, 1 + (a / 1000 % 10) as usize, &meta(1, false)));
    sv::check(tool::print_files("/i", "DATA".into()), "the files of a section can be listed");
    let mut want = vec![];
    listing(&t, 0, &mut want);
    sv::check_eq(&vfs::fs().out, &want, "every file and directory is listed once, in order, below its directory");
    sv::reach("done");
    if t.iter().any(|x| !x.kids.is_empty()) {
        sv::reach("nested");
    }
}
/// the partitions of an image: a = number + 10 * how many of the tables are used (1 to 4)
#[no_mangle]
pub extern "C" fn h_list_sections(a: u64) {
    sv::format();
    let (n, tables) = (a % 10, a / 10);
    let mut d = vec![0u8; 0x50000];
    be32(&mut d, 0x18, 0x5D1C9EA3);
    let mut want = vec![];
    let mut counts = [0u32; 4];
    let mut t = 0;
    for k in 0..4 {
        be32(&mut d, 0x40004 + 8 * k, (0x40100 + 0x100 * k as u32) >> 2);
    }
    for i in 0..n {
        // entries fill the tables in order
        t += sv::choose("table", tables - t);
        let ty = sv::choose("type", 3) as usize;
        // any position of this many hexadecimal digits
        let digits = if i == 0 { 1 + sv::choose("digits", 9) } else { 6 };
        let pos = sv::val("pos", 64, if digits == 1 { 0 } else { 1 << (4 * digits - 4) }, ((1u64 << (4 * digits)) - 1).min(0x3_ffff_fffc)) & !3;
        let place = (pos >> 2) as u32;
        let e = 0x40100 + 0x100 * t as usize + 8 * counts[t as usize] as usize;
        be32(&mut d, e, place);
        be32(&mut d, e + 4, ty as u32);
        counts[t as usize] += 1;
        want.extend_from_slice([b"Data: " as &[u8], b"Update: ", b"Channel: "][ty]);
        for k in (0..digits).rev() {
            let c = (pos >> (4 * k)) as u8 & 15;
            want.push(b'0' + c + 7 * (c > 9) as u8);
        }
        want.push(b'\n');
    }
    for k in 0..4 {
        be32(&mut d, 0x40000 + 8 * k, counts[k]);
    }
    vfs::on();
    vfs::add(0, b"i", false, d);
    sv::check(tool::sections("/i"), "the sections of an image can be listed");
    sv::check_eq(&vfs::fs().out, &want, "every partition is listed once, in order, with its type and position");
    sv::reach("done");
}

// -------------------------------------------------------------------------------------------------------- progress

/// a callback that records the numbers it is given, and fails or not
fn recorder(seen: &Rc<RefCell<Vec<i128>>>, fails: bool) -> Py<PyAny> {
    let s = seen.clone();
    Py::callable(move |o| {
        match o {
            Obj::Int(v) => s.borrow_mut().push(v),
            _ => sv::check(false, "progress is reported as a number"),
        }
        if fails {
            return Err(PyErr("no".into()));
        }
        Ok(Obj::None)
    })
}
fn rising(v: &[i128], complete: bool) {
    sv::check(!v.is_empty() && v[0] == 0, "the first report is 0");
    for i in 0..v.len() {
        sv::check(v[i] <= 100, "no report exceeds 100");
        if i > 0 {
            sv::check(v[i - 1] <= v[i], "reports never decrease");
        }
    }
    if complete {
        sv::check(v[v.len() - 1] == 100, "the last report is 100");
        sv::reach("complete");
    }
}
/// the reports of an extraction: a as in `build` + 1000000 * mode: 0 extraction, 1 after removals, 2 followed by a rebuild with the
/// Python module, 3 with the command line tool
#[no_mangle]
pub extern "C" fn h_ext_progress(a: u64) {
    let mode = a / 1000000;
    let b = build(a % 1000000, 1);
    let (d, _) = &b.defs[0];
    sv::assume(no_dots(&d.tree));
    vfs::on();
    let mut img = b.disk.data;
    img.truncate(sv::concrete(b.disk.len) as usize);
    vfs::add(0, b"i", false, img);
    vfs::add(0, b"o", true, vec![]);
    let Some(mut x) = py::X::open("/i") else { return sv::check(false, "a disc can be opened") };
    sv::check(x.prepare("DATA".into()), "a section can be prepared");
    let mut kept = vec![true; d.files.len()];
    if mode == 1 {
        for k in &mut kept {
            *k = sv::choose("keep", 2) == 1;
        }
        let plan: Vec<(Vec<u8>, bool)> = d.files.iter().zip(&kept).map(|(f, k)| (f.path.join(&b'/'), !*k)).collect();
        let ask = Py::callable(move |o| {
            let Obj::Str(p) = o else { return Ok(Obj::None) };
            Ok(Obj::Bool(plan.iter().any(|(q, del)| beq(q, p.as_bytes()) && *del)))
        });
        sv::check(x.remove("DATA".into(), ask), "files can be removed");
    }
    let fails = mode % 2 == 0 && sv::choose("fails", 2) == 1;
    let seen = Rc::new(RefCell::new(vec![]));
    sv::check(x.extract("/o", recorder(&seen, fails)), "a disc can be extracted");
    let bytes: u64 = d.files.iter().zip(&kept).map(|(f, k)| if *k { f.data.len() as u64 } else { 0 }).sum();
    rising(&seen.borrow(), bytes > 0);
    if mode == 2 || mode == 3 {
        sv::digest_cap(1);
        let seen = Rc::new(RefCell::new(vec![]));
        if mode == 2 {
            sv::check(py::rebuild("/o", "/r", recorder(&seen, fails)), "an extracted disc can be rebuilt");
        } else {
            sv::check(tool::rebuild("/o", "/r"), "an extracted disc can be rebuilt");
            // one line per report, with the number before the percent sign
            for l in vfs::fs().out.split(|c| *c == b'\n') {
                let Some(e) = l.iter().position(|c| *c == b'%') else { continue };
                let n = l[..e].iter().rev().take_while(|c| c.is_ascii_digit()).count();
                seen.borrow_mut().push(l[e - n..e].iter().fold(0i64, |v, c| v * 10 + (c - b'0') as i64) as i128);
            }
        }
        rising(&seen.borrow(), bytes > 0);
        sv::reach("rebuilt");
    }
    sv::reach("done");
}
/// the reports of several sections at once: a = partitions
#[no_mangle]
pub extern "C" fn h_sec_progress(a: u64) {
    vfs::on();
    let ty = typed(a);
    let Some(mut x) = py::X::open("/i") else { return sv::check(false, "a disc can be opened") };
    let mut any = 0;
    for k in 0..3 {
        if ty.contains(&k) && sv::choose("prepare", 2) == 1 {
            sv::check(x.prepare(s(NAMES[k as usize])), "a section can be prepared");
            any += 1;
        }
    }
    let seen = Rc::new(RefCell::new(vec![]));
    sv::check(x.extract("/o", recorder(&seen, false)), "the sections can be extracted");
    let seen = seen.borrow();
    rising(&seen, any > 0);
    sv::check(seen.iter().filter(|v| **v == 100).count() >= any, "every section is reported to its end");
    sv::reach("done");
}

// ------------------------------------------------------------------------------------------------------------ copies

/// a copy of an image: a = nodes of the tree + 10 * nodes of the directory THP (9: there is none, 8: it is a file) + 100 * length kinds
///   + 1000 * mode: 0 copy, 1 there is no data partition, 2 a file operation fails (10000 * window of 800 operations)
#[no_mangle]
pub extern "C" fn h_copy(a: u64) {
    let (mut nodes, thp, kinds, mode) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000 % 10);
    let leaf = |name: Vec<u8>| N { name, dir: false, kids: vec![], off: 0, len: 0 };
    let mut tree = forest(&mut nodes, 2, 1);
    let mut keep = vec![];
    let spot = tree.len();
    // only this very name is special
    let other = mode != 2 && sv::choose("case", 2) == 1;
    let movies: &[u8] = if other { b"tHp" } else { b"THP" };
    if thp == 8 {
        tree.push(leaf(movies.to_vec()));
    } else if thp < 8 {
        let mut kids = vec![];
        for i in 0..thp {
            let name = if mode == 0 && sv::choose("form", 2) == 1 {
                vec![chr("thp"), b'D', b'e', b'm', b'o', b'0' + i as u8]
            } else {
                vec![chr("thp"), b'e', b'm', chr("thp"), b'0' + i as u8]
            };
            keep.push(sv::concrete(beq(&name[..4], b"Demo") as u64) == 1);
            let dir = sv::choose("kind", 2) == 1;
            kids.push(N { dir, kids: if dir { vec![leaf(b"q".to_vec())] } else { vec![] }, ..leaf(name) });
        }
        tree.push(N { dir: true, kids, ..leaf(movies.to_vec()) });
        tree.push(leaf(b"~Demo".to_vec()));
    }
    lengths(&mut tree, kinds);
    sv::assume(distinct(&tree));
    let size = 0x70000 + groups(&tree, 0x600) * GS as u64;
    let mut d = Def::new(tree, 0x25, 0x123);
    // the sizes that the apploader declares are fixed here
    be32(&mut d.app, 0x14, 2);
    be32(&mut d.app, 0x18, 3);
    let m = meta(1, false);
    let mut disk = Disk::new(size as usize);
    let hdr = header("disc", 5);
    let mut region = [0u8; 32];
    sv::arr("region", &mut region);
    sv::digest_cap(1);
    {
        let mut b = WiiDiscBuilder::create(&mut disk, hdr.clone(), region);
        let ty = if mode == 1 { WiiPartType::Update } else { WiiPartType::Data };
        let r = b.add_partition(ty, m.ticket.clone(), m.tmd.clone(), m.certs.clone(), &mut d, &mut |_| ());
        sv::check(r.is_ok() && b.finish().is_ok(), "a disc can be built");
    }
    vfs::on();
    let mut img = disk.data;
    img.truncate(sv::concrete(disk.len) as usize);
    vfs::add(0, b"i", false, img);
    let to = vfs::add(0, b"r", false, vec![]);
    if mode == 2 {
        vfs::fs().fail_at = vfs::fs().ops + sv::range("fail", a / 10000 * 800, a / 10000 * 800 + 799);
    }
    sv::digest_cap(1);
    let r = build_copy(Path::new("/i"), Path::new("/r"));
    sv::digest_cap(0);
    if vfs::fs().failed {
        sv::check(r.is_err(), "a failing operation is reported");
        return sv::reach("reported");
    }
    sv::check(r.is_ok() == (mode != 1), "exactly images with a data partition can be copied");
    if mode == 1 {
        return sv::reach("none");
    }
    // what is left
    if thp < 8 && !other {
        let mut k = keep.iter();
        d.tree[spot].kids.retain(|_| *k.next().unwrap_or(&true));
    }
    let gone = |f: &F| f.path[0] == movies && thp < 8 && !other && !beq(&f.path[1][..4], b"Demo");
    d.files = std::mem::take(&mut d.files).into_iter().filter(|f| sv::concrete(gone(f) as u64) == 0).collect();
    let disk = Disk::from(std::mem::take(&mut vfs::fs().nodes[to].data));
    let mut r = match WiiIsoReader::open(disk) {
        Ok(r) => r,
        Err(_) => return sv::check(false, "a copied disc can be opened"),
    };
    sv::check_eq(r.get_region(), &region, "the region is that of the image");
    sv::check_eq(&header_bytes(r.get_header()), &header_bytes(&hdr), "the header is that of the image");
    sv::check(r.partitions().len() == 1, "the disc has one partition");
    verify(&mut r, 0, WiiPartType::Data, &d, &m);
    sv::reach("done");
}
