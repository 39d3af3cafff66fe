//! A file system in memory behind the libc calls of std::fs. The functions below take the place of libc's, both in the
//! symbolic and in the native build, so that no check ever touches real files (input files of the replayer excepted:
//! before `on`, and for the standard streams, calls go to the kernel).
#![allow(dead_code, static_mut_refs)]
use crate::tree::beq;
use std::ffi::{c_char, c_int, c_uint, c_void};

pub struct Nd {
    pub parent: usize,
    pub name: Vec<u8>,
    pub dir: bool,
    pub data: Vec<u8>,
    /// reported instead of the length of the data
    pub size: Option<u64>,
    /// created or opened for writing through a call
    pub touched: bool,
}
pub struct Fd {
    node: usize,
    pos: u64,
    open: bool,
}
pub struct Fs {
    pub nodes: Vec<Nd>,
    fds: Vec<Fd>,
    pub on: bool,
    /// where files and directories were created, written or removed: the directory concerned
    pub log: Vec<usize>,
    pub ops: u64,
    pub fail_at: u64,
    pub failed: bool,
    /// what went to standard output
    pub out: Vec<u8>,
}
static mut FS: Fs = Fs { nodes: vec![], fds: vec![], on: false, log: vec![], ops: 0, fail_at: u64::MAX, failed: false, out: vec![] };
const FD0: i32 = 1000;
const ENOENT: i32 = 2;
const EIO: i32 = 5;
const EBADF: i32 = 9;
const EEXIST: i32 = 17;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;
const ENOSYS: i32 = 38;

pub fn fs() -> &'static mut Fs {
    unsafe { &mut FS }
}
/// an empty file system
pub fn on() {
    let f = fs();
    f.nodes = vec![Nd { parent: 0, name: vec![], dir: true, data: vec![], size: None, touched: false }];
    f.on = true;
}
/// adds a file or directory
pub fn add(parent: usize, name: &[u8], dir: bool, data: Vec<u8>) -> usize {
    let f = fs();
    f.nodes.push(Nd { parent, name: name.to_vec(), dir, data, size: None, touched: false });
    f.nodes.len() - 1
}
pub fn child(dir: usize, name: &[u8]) -> Option<usize> {
    let f = fs();
    (1..f.nodes.len()).find(|&i| f.nodes[i].parent == dir && beq(&f.nodes[i].name, name))
}
/// the node at a path given by its components
pub fn at(path: &[&[u8]]) -> Option<usize> {
    let mut n = 0;
    for p in path {
        n = child(n, p)?;
    }
    Some(n)
}
pub fn below(mut n: usize, top: usize) -> bool {
    loop {
        if n == top {
            return true;
        }
        if n == 0 {
            return false;
        }
        n = fs().nodes[n].parent;
    }
}

#[cfg(not(feature = "native"))]
mod sys {
    static mut ERRNO: i32 = 0;
    #[no_mangle]
    extern "C" fn __errno_location() -> *mut i32 {
        unsafe { &raw mut ERRNO }
    }
    #[no_mangle]
    unsafe extern "C" fn __xpg_strerror_r(_: i32, buf: *mut u8, _: usize) -> i32 {
        *buf = b'e';
        *buf.add(1) = 0;
        0
    }
    pub fn set(e: i32) {
        unsafe { ERRNO = e }
    }
    pub fn call(n: u64, _a: u64, _b: u64, c: u64, _d: u64) -> i64 {
        if n == 1 {
            return c as i64; // output is dropped
        }
        -(super::ENOSYS as i64)
    }
}
#[cfg(feature = "native")]
mod sys {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    pub fn set(e: i32) {
        unsafe { *__errno_location() = e }
    }
    pub fn call(n: u64, a: u64, b: u64, c: u64, d: u64) -> i64 {
        let r: i64;
        unsafe {
            std::arch::asm!("syscall", inlateout("rax") n as i64 => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, out("rcx") _, out("r11") _);
        }
        r
    }
}
fn fail(e: i32) -> i32 {
    sys::set(e);
    -1
}
fn real(n: u64, a: u64, b: u64, c: u64, d: u64) -> i64 {
    let r = sys::call(n, a, b, c, d);
    if r < 0 {
        return fail(-r as i32) as i64;
    }
    r
}
/// does this operation fail?
fn tick() -> bool {
    let f = fs();
    let k = f.ops;
    f.ops += 1;
    if k == f.fail_at {
        f.failed = true;
        sys::set(EIO);
        return true;
    }
    false
}

/// directory and last component of a path, and the node if there is one
fn walk(p: *const c_char) -> Result<(usize, Vec<u8>, Option<usize>), i32> {
    let mut cur = 0;
    let mut last: Vec<u8> = vec![];
    let mut comp: Vec<u8> = vec![];
    let mut dir = 0;
    let mut here = Some(0);
    let mut i = 0;
    loop {
        let c = unsafe { *p.add(i) } as u8;
        i += 1;
        if c != 0 && c != b'/' {
            comp.push(c);
            continue;
        }
        if !comp.is_empty() {
            // one step
            let Some(n) = here else { return Err(ENOENT) };
            cur = n;
            if !fs().nodes[cur].dir {
                return Err(ENOTDIR);
            }
            if comp.len() == 1 && comp[0] == b'.' {
                here = Some(cur);
            } else if comp.len() == 2 && comp[0] == b'.' && comp[1] == b'.' {
                here = Some(fs().nodes[cur].parent);
                dir = fs().nodes[fs().nodes[cur].parent].parent;
                last = vec![];
            } else {
                dir = cur;
                here = child(cur, &comp);
                last = std::mem::take(&mut comp);
            }
            comp.clear();
        }
        if c == 0 {
            break;
        }
    }
    let _ = cur;
    Ok((dir, last, here))
}

#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !fs().on {
        return real(2, path as u64, flags as u64, mode as u64, 0) as i32;
    }
    let (creat, excl, trunc, acc) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 3);
    let (dir, name, node) = match walk(path) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    if acc != 0 || creat {
        fs().log.push(dir);
    }
    if tick() {
        return -1;
    }
    let n = match node {
        Some(n) => {
            if creat && excl {
                return fail(EEXIST);
            }
            if fs().nodes[n].dir && acc != 0 {
                return fail(EISDIR);
            }
            if trunc {
                fs().nodes[n].data = vec![];
            }
            n
        }
        None if creat => add(dir, &name, false, vec![]),
        None => return fail(ENOENT),
    };
    if acc != 0 {
        fs().nodes[n].touched = true;
    }
    fs().fds.push(Fd { node: n, pos: 0, open: true });
    FD0 + fs().fds.len() as i32 - 1
}
fn fd(n: c_int) -> Option<&'static mut Fd> {
    let f = fs();
    let i = n.wrapping_sub(FD0) as u32 as usize;
    if i < f.fds.len() && f.fds[i].open {
        return Some(&mut f.fds[i]);
    }
    None
}
#[no_mangle]
unsafe extern "C" fn read(n: c_int, buf: *mut c_void, len: usize) -> isize {
    if n < FD0 {
        return real(0, n as u64, buf as u64, len as u64, 0) as isize;
    }
    let Some(d) = fd(n) else { return fail(EBADF) as isize };
    if tick() {
        return -1;
    }
    let f = &fs().nodes[d.node];
    if f.dir {
        return fail(EISDIR) as isize;
    }
    let have = f.data.len() as u64;
    if d.pos >= have {
        return 0;
    }
    let k = (have - d.pos).min(len as u64);
    std::ptr::copy_nonoverlapping(f.data.as_ptr().add(d.pos as usize), buf as *mut u8, k as usize);
    d.pos += k;
    k as isize
}
#[no_mangle]
unsafe extern "C" fn write(n: c_int, buf: *const c_void, len: usize) -> isize {
    if n == 1 && fs().on {
        fs().out.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, len));
    }
    if n < FD0 {
        return real(1, n as u64, buf as u64, len as u64, 0) as isize;
    }
    let Some(d) = fd(n) else { return fail(EBADF) as isize };
    if tick() {
        return -1;
    }
    let f = &mut fs().nodes[d.node];
    let end = d.pos as usize + len;
    if f.data.len() < end {
        f.data.resize(end, 0);
    }
    std::ptr::copy_nonoverlapping(buf as *const u8, f.data.as_mut_ptr().add(d.pos as usize), len);
    d.pos += len as u64;
    len as isize
}
#[no_mangle]
unsafe extern "C" fn lseek64(n: c_int, off: i64, whence: c_int) -> i64 {
    if n < FD0 {
        return real(8, n as u64, off as u64, whence as u64, 0);
    }
    let Some(d) = fd(n) else { return fail(EBADF) as i64 };
    if tick() {
        return -1;
    }
    let base = match whence {
        0 => 0,
        1 => d.pos as i64,
        _ => fs().nodes[d.node].data.len() as i64,
    };
    match base.checked_add(off) {
        Some(p) if p >= 0 => {
            d.pos = p as u64;
            p
        }
        _ => fail(EINVAL) as i64,
    }
}
#[no_mangle]
unsafe extern "C" fn lseek(n: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(n, off, whence)
}
#[no_mangle]
unsafe extern "C" fn close(n: c_int) -> c_int {
    if n < FD0 {
        return real(3, n as u64, 0, 0, 0) as i32;
    }
    match fd(n) {
        Some(d) => {
            d.open = false;
            0
        }
        None => fail(EBADF),
    }
}
#[no_mangle]
unsafe extern "C" fn fsync(_: c_int) -> c_int {
    0
}
unsafe fn put_stat(n: usize, out: *mut u8) -> c_int {
    let f = &fs().nodes[n];
    std::ptr::write_bytes(out, 0, 144);
    *(out.add(8) as *mut u64) = n as u64 + 1;
    *(out.add(16) as *mut u64) = 1;
    *(out.add(24) as *mut u32) = if f.dir { 0o040755 } else { 0o100644 };
    *(out.add(48) as *mut u64) = f.size.unwrap_or(f.data.len() as u64);
    0
}
#[no_mangle]
unsafe extern "C" fn stat64(path: *const c_char, out: *mut u8) -> c_int {
    if !fs().on {
        return real(4, path as u64, out as u64, 0, 0) as i32;
    }
    let r = walk(path);
    if tick() {
        return -1;
    }
    match r {
        Ok((_, _, Some(n))) => put_stat(n, out),
        Ok(_) => fail(ENOENT),
        Err(e) => fail(e),
    }
}
#[no_mangle]
unsafe extern "C" fn lstat64(path: *const c_char, out: *mut u8) -> c_int {
    stat64(path, out)
}
#[no_mangle]
unsafe extern "C" fn fstat64(n: c_int, out: *mut u8) -> c_int {
    if n < FD0 {
        return real(5, n as u64, out as u64, 0, 0) as i32;
    }
    let Some(d) = fd(n) else { return fail(EBADF) };
    put_stat(d.node, out)
}
/// the path of a directory entry, relative to its directory stream
#[no_mangle]
unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, out: *mut u8, _: c_int) -> c_int {
    let Some(d) = fd(dir) else { return fail(EBADF) };
    let mut name = vec![];
    let mut i = 0;
    loop {
        let c = *path.add(i) as u8;
        if c == 0 {
            break;
        }
        name.push(c);
        i += 1;
    }
    if tick() {
        return -1;
    }
    match child(d.node, &name) {
        Some(n) => put_stat(n, out),
        None => fail(ENOENT),
    }
}
#[no_mangle]
unsafe extern "C" fn statx(_: c_int, _: *const c_char, _: c_int, _: c_uint, _: *mut c_void) -> c_int {
    fail(ENOSYS)
}
#[no_mangle]
unsafe extern "C" fn mkdir(path: *const c_char, _: c_uint) -> c_int {
    if !fs().on {
        return fail(ENOSYS);
    }
    let (dir, name, node) = match walk(path) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    if node.is_none() {
        fs().log.push(dir);
    }
    if tick() {
        return -1;
    }
    if node.is_some() {
        return fail(EEXIST);
    }
    let n = add(dir, &name, true, vec![]);
    fs().nodes[n].touched = true;
    0
}
#[no_mangle]
unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !fs().on {
        return fail(ENOSYS);
    }
    let (dir, _, node) = match walk(path) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    fs().log.push(dir);
    match node {
        Some(n) if !fs().nodes[n].dir => {
            // never found again
            fs().nodes[n].parent = usize::MAX;
            0
        }
        Some(_) => fail(EISDIR),
        None => fail(ENOENT),
    }
}
struct Dir {
    fd: c_int,
    next: usize,
    ent: [u64; 40],
}
#[no_mangle]
unsafe extern "C" fn opendir(path: *const c_char) -> *mut Dir {
    let r = walk(path);
    if tick() {
        return std::ptr::null_mut();
    }
    let e = match r {
        Ok((_, _, Some(n))) if fs().nodes[n].dir => {
            fs().fds.push(Fd { node: n, pos: 0, open: true });
            let fd = FD0 + fs().fds.len() as i32 - 1;
            return Box::into_raw(Box::new(Dir { fd, next: 1, ent: [0; 40] }));
        }
        Ok((_, _, Some(_))) => ENOTDIR,
        Ok(_) => ENOENT,
        Err(e) => e,
    };
    fail(e);
    std::ptr::null_mut()
}
#[no_mangle]
unsafe extern "C" fn readdir64(d: *mut Dir) -> *mut u8 {
    if tick() {
        return std::ptr::null_mut();
    }
    let d = &mut *d;
    let Some(f) = fd(d.fd) else { return std::ptr::null_mut() };
    while d.next < fs().nodes.len() {
        let n = &fs().nodes[d.next];
        d.next += 1;
        if n.parent != f.node {
            continue;
        }
        let p = d.ent.as_mut_ptr() as *mut u8;
        *(p as *mut u64) = d.next as u64;
        *(p.add(16) as *mut u16) = 320;
        *p.add(18) = if n.dir { 4 } else { 8 };
        std::ptr::copy_nonoverlapping(n.name.as_ptr(), p.add(19), n.name.len());
        *p.add(19 + n.name.len()) = 0;
        return p;
    }
    std::ptr::null_mut()
}
#[no_mangle]
unsafe extern "C" fn closedir(d: *mut Dir) -> c_int {
    let d = Box::from_raw(d);
    close(d.fd)
}
#[no_mangle]
unsafe extern "C" fn dirfd(d: *mut Dir) -> c_int {
    (*d).fd
}
#[no_mangle]
unsafe extern "C" fn fcntl(n: c_int, cmd: c_int, arg: u64) -> c_int {
    if n >= FD0 {
        return 0;
    }
    real(72, n as u64, cmd as u64, arg, 0) as i32
}
// Calls that the code makes today nowhere, modelled (or refused) so that no change of the code reaches real files.
#[no_mangle]
unsafe extern "C" fn pread64(n: c_int, buf: *mut c_void, len: usize, off: i64) -> isize {
    if n < FD0 {
        return real(17, n as u64, buf as u64, len as u64, off as u64) as isize;
    }
    let Some(d) = fd(n) else { return fail(EBADF) as isize };
    let old = std::mem::replace(&mut d.pos, off as u64);
    let r = read(n, buf, len);
    d.pos = old;
    r
}
#[no_mangle]
unsafe extern "C" fn pwrite64(n: c_int, buf: *const c_void, len: usize, off: i64) -> isize {
    let Some(d) = fd(n) else { return fail(EBADF) as isize };
    let old = std::mem::replace(&mut d.pos, off as u64);
    let r = write(n, buf, len);
    d.pos = old;
    r
}
#[repr(C)]
struct IoVec {
    base: *mut c_void,
    len: usize,
}
/// a vectored transfer may be short: the first piece that is not empty
unsafe fn first(v: *const IoVec, n: c_int) -> (*mut c_void, usize) {
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.len > 0 {
            return (x.base, x.len);
        }
    }
    (std::ptr::null_mut(), 0)
}
#[no_mangle]
unsafe extern "C" fn readv(n: c_int, v: *const IoVec, c: c_int) -> isize {
    let (p, l) = first(v, c);
    if l == 0 {
        return 0;
    }
    read(n, p, l)
}
#[no_mangle]
unsafe extern "C" fn writev(n: c_int, v: *const IoVec, c: c_int) -> isize {
    let (p, l) = first(v, c);
    if l == 0 {
        return 0;
    }
    write(n, p, l)
}
#[no_mangle]
unsafe extern "C" fn ftruncate64(n: c_int, len: i64) -> c_int {
    let Some(d) = fd(n) else { return fail(EBADF) };
    if tick() {
        return -1;
    }
    fs().nodes[d.node].data.resize(len as usize, 0);
    0
}
#[no_mangle]
unsafe extern "C" fn fdatasync(_: c_int) -> c_int {
    0
}
#[no_mangle]
unsafe extern "C" fn access(path: *const c_char, _: c_int) -> c_int {
    if !fs().on {
        return real(21, path as u64, 0, 0, 0) as i32;
    }
    match walk(path) {
        Ok((_, _, Some(_))) => 0,
        Ok(_) => fail(ENOENT),
        Err(e) => fail(e),
    }
}
#[no_mangle]
unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !fs().on {
        return fail(ENOSYS);
    }
    let (from, to) = match (walk(a), walk(b)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => return fail(e),
    };
    fs().log.push(from.0);
    fs().log.push(to.0);
    if tick() {
        return -1;
    }
    let Some(n) = from.2 else { return fail(ENOENT) };
    if let Some(m) = to.2 {
        if fs().nodes[m].dir || fs().nodes[n].dir {
            return fail(EISDIR);
        }
        fs().nodes[m].parent = usize::MAX;
    }
    fs().nodes[n].parent = to.0;
    fs().nodes[n].name = to.1;
    0
}
#[no_mangle]
unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if !fs().on {
        return fail(ENOSYS);
    }
    let (dir, _, node) = match walk(path) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    fs().log.push(dir);
    match node {
        Some(n) if !fs().nodes[n].dir => fail(ENOTDIR),
        Some(n) if fs().nodes.iter().any(|x| x.parent == n) => fail(39),
        Some(n) => {
            fs().nodes[n].parent = usize::MAX;
            0
        }
        None => fail(ENOENT),
    }
}
#[no_mangle]
unsafe extern "C" fn getcwd(buf: *mut c_char, len: usize) -> *mut c_char {
    if len < 2 {
        fail(34);
        return std::ptr::null_mut();
    }
    *buf = b'/' as c_char;
    *buf.add(1) = 0;
    buf
}
extern "C" {
    fn malloc(n: usize) -> *mut c_void;
}
#[no_mangle]
unsafe extern "C" fn realpath(path: *const c_char, _: *mut c_char) -> *mut c_char {
    if !fs().on {
        fail(ENOSYS);
        return std::ptr::null_mut();
    }
    let mut n = match walk(path) {
        Ok((_, _, Some(n))) => n,
        Ok(_) => {
            fail(ENOENT);
            return std::ptr::null_mut();
        }
        Err(e) => {
            fail(e);
            return std::ptr::null_mut();
        }
    };
    let mut out: Vec<u8> = vec![];
    while n != 0 {
        let x = &fs().nodes[n];
        let mut p = vec![b'/'];
        p.extend_from_slice(&x.name);
        p.extend_from_slice(&out);
        out = p;
        n = x.parent;
    }
    if out.is_empty() {
        out.push(b'/');
    }
    out.push(0);
    let m = malloc(out.len()) as *mut u8;
    std::ptr::copy_nonoverlapping(out.as_ptr(), m, out.len());
    m as *mut c_char
}
macro_rules! refused {
    ($($f:ident($($a:ident),*);)*) => { $(
        #[no_mangle]
        unsafe extern "C" fn $f($($a: u64),*) -> i64 {
            $(let _ = $a;)*
            fail(ENOSYS) as i64
        }
    )* };
}
// the standard library falls back to reading and writing where these are refused
refused! {
    copy_file_range(a, b, c, d, e, f);
    sendfile64(a, b, c, d);
    splice(a, b, c, d, e, f);
    symlink(a, b);
    link(a, b);
    linkat(a, b, c, d, e);
    chmod(a, b);
    fchmod(a, b);
    chown(a, b, c);
    unlinkat(a, b, c);
    openat64(a, b, c, d);
    mkdirat(a, b, c);
    renameat(a, b, c, d);
    truncate64(a, b);
    readlink(a, b, c);
    futimens(a, b);
    chdir(a);
}
