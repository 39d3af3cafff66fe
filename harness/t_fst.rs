//! C05-C11: the file system table.
use crate::sv;
use crate::tree::*;
use disc_riider::*;
use std::cmp::Ordering;
use std::io::Cursor;

fn ser(f: &Fst) -> Vec<u8> {
    let mut out = Vec::new();
    FstToBytes::try_from(f.clone()).ok().unwrap().write_to(&mut Cursor::new(&mut out)).unwrap();
    out
}

/// C05: every tree of at most `a` nodes survives serialising and parsing, at any offset
#[no_mangle]
pub extern "C" fn h_fst_rt(a: u64) {
    let (mut n, nl) = (a % 10, a / 10);
    let t = forest(&mut n, 3, nl);
    let f = fst(&t);
    let pre = sv::choose("pre", 2) * 7;
    let mut img = vec![0xAAu8; pre as usize];
    img.extend_from_slice(&ser(&f));
    img.extend_from_slice(&[0x55; 3]);
    let g = Fst::read(&mut Cursor::new(&img), pre).unwrap();
    sv::check(same(&from_fst(&g), &t), "parsing the serialised table gives back the tree");
    sv::reach("done");
    if count(&t) >= 3 && files(&t) == 1 {
        sv::reach("nested");
    }
}

fn utf8(cp: u32) -> Vec<u8> {
    let mut b = [0; 4];
    char::from_u32(cp).unwrap().encode_utf8(&mut b).as_bytes().to_vec()
}

/// C05: a name with one arbitrary character of a Unicode range either is an error or round-trips
#[no_mangle]
pub extern "C" fn h_fst_char(a: u64) {
    let (lo, hi) = match a {
        0 => (0x80, 0xff),
        1 => (0x2010, 0x203f),
        2 => (0xff61, 0xff9f),
        3 => (0x3041, 0x3093),
        4 => (0x30a1, 0x30f6),
        5 => (0x2200, 0x2230),
        6 => (0xff00, 0xff60),
        7 => (0, 0x7f),
        8 => (0xffe0, 0xfffd),
        9 => (0x3000, 0x3040),
        10 => (0x391, 0x451),
        11 => (0x1f600, 0x1f60f),
        12 => (0xe000, 0xe020),
        13 => (0x2500, 0x254b),
        k => (0x4e00 + (k as u32 - 16) * 64, 0x4e3f + (k as u32 - 16) * 64),
    };
    let c = sv::val("cp", 32, lo as u64, hi as u64) as u32;
    let c = if a == 7 { c } else { sv::concrete(c as u64) as u32 };
    let mut nm = vec![b'x'];
    if a == 7 {
        nm.push(c as u8);
    } else {
        nm.extend_from_slice(&utf8(c));
    }
    nm.push(b'y');
    let t = vec![
        N { name: vec![b'd'], dir: true, kids: vec![N { name: nm, dir: false, kids: vec![], off: 4, len: 5 }], off: 0, len: 0 },
        N { name: vec![b'z'], dir: false, kids: vec![], off: 8, len: 9 },
    ];
    match FstToBytes::try_from(fst(&t)) {
        Ok(b) => {
            let mut out = Vec::new();
            b.write_to(&mut Cursor::new(&mut out)).unwrap();
            match Fst::read(&mut Cursor::new(&out), 0) {
                Ok(g) => sv::check(same(&from_fst(&g), &t), "a name that is accepted is not altered"),
                Err(_) => sv::check(false, "a serialised table parses"),
            }
            sv::reach("accepted");
        }
        Err(_) => sv::check(a != 3 && a != 4 && a != 2 && (a != 7 || c == 0), "representable names are accepted"),
    }
}

fn be(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
fn walk(b: &[u8], v: &[N], parent: u32, idx: &mut u32, total: u32) {
    for n in v {
        let me = *idx;
        *idx += 1;
        let o = me as usize * 12;
        let name_off = (be(b, o) & 0xffffff) as usize;
        sv::check(be(b, o) >> 24 == n.dir as u32, "entry type");
        let st = total as usize * 12 + name_off;
        sv::check(st + n.name.len() < b.len(), "name lies inside the string table");
        sv::check(beq(&b[st..st + n.name.len()], &n.name), "name offset points at the node's name");
        sv::check(b[st + n.name.len()] == 0, "name is NUL-terminated");
        if n.dir {
            sv::check(be(b, o + 4) == parent, "directory entry holds its parent's index");
            walk(b, &n.kids, me, idx, total);
            sv::check(be(b, o + 8) == *idx, "directory entry holds the index past its last descendant");
        } else {
            sv::check(be(b, o + 4) as u64 == n.off >> 2, "file entry holds offset/4");
            sv::check(be(b, o + 8) == n.len, "file entry holds the length");
        }
    }
}
/// C06: layout of the serialised table
#[no_mangle]
pub extern "C" fn h_fst_layout(a: u64) {
    let (mut n, nl) = (a % 10, a / 10);
    let t = forest(&mut n, 4, nl);
    let b = ser(&fst(&t));
    let total = 1 + count(&t) as u32;
    sv::check(b.len() >= total as usize * 12, "all entries are present");
    sv::check(be(&b, 0) >> 24 == 1 && be(&b, 4) == 0 && be(&b, 8) == total, "root entry is a directory counting all entries");
    let root = total as usize * 12 + (be(&b, 0) & 0xffffff) as usize;
    sv::check(root < b.len() && b[root] == 0, "the name of the root is empty");
    let mut idx = 1;
    walk(&b, &t, 0, &mut idx, total);
    sv::check(idx == total, "depth-first order covers all entries");
    sv::reach("done");
}

fn model_add(v: &mut Vec<N>, path: &[Vec<u8>], new: N) -> Result<Option<N>, ()> {
    if path.is_empty() {
        for x in v.iter_mut() {
            if ceq(&x.name, &new.name) {
                return Ok(Some(std::mem::replace(x, new)));
            }
        }
        let i = v.iter().position(|x| clt(&new.name, &x.name)).unwrap_or(v.len());
        v.insert(i, new);
        return Ok(None);
    }
    for x in v.iter_mut() {
        if ceq(&x.name, &path[0]) {
            if !x.dir {
                return Err(());
            }
            return model_add(&mut x.kids, &path[1..], new);
        }
    }
    let mut d = N { name: path[0].clone(), dir: true, kids: vec![], off: 0, len: 0 };
    let r = model_add(&mut d.kids, &path[1..], new);
    let i = v.iter().position(|x| clt(&path[0], &x.name)).unwrap_or(v.len());
    v.insert(i, d);
    r
}
fn join(path: &[Vec<u8>]) -> String {
    let mut o = vec![];
    // slashes in front, doubled and at the end are ignored
    let style = sv::choose("style", 3);
    if style == 1 {
        o.push(b'/');
    }
    for (i, p) in path.iter().enumerate() {
        if i > 0 {
            o.push(b'/');
            if style == 1 {
                o.push(b'/');
            }
        }
        o.extend_from_slice(p);
    }
    if style == 2 {
        o.push(b'/');
    }
    s(&o)
}
/// C07: adding a node. a = nodes + 10*path length + 100*max name length + 1000*depth
#[no_mangle]
pub extern "C" fn h_fst_add(a: u64) {
    let (mut n, pl, nl, d) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000 % 10);
    let mut t = forest(&mut n, d, nl);
    sv::assume(sorted(&t));
    let path: Vec<Vec<u8>> = (0..pl).map(|_| name("path", nl)).collect();
    let dir = sv::choose("kind", 2) == 1;
    let kids = if dir && sv::choose("kid", 2) == 1 { vec![N { name: vec![b'k'], dir: false, kids: vec![], off: 8, len: 9 }] } else { vec![] };
    let new = N { name: name("new", nl), dir, kids, off: if dir { 0 } else { 0x44 }, len: if dir { 0 } else { 0x55 } };
    let mut f = fst(&t);
    let p = if pl > 0 { join(&path) } else { String::new() };
    let r = f.add_node_path(&p, to_fst(&[new.clone()]).pop().unwrap());
    let g = from_fst(&f);
    let want = model_add(&mut t, &path, new);
    match (r, want) {
        (Ok(None), Ok(None)) => sv::reach("added"),
        (Ok(Some(x)), Ok(Some(y))) => {
            sv::check(same_node(&from_node(&x), &y), "the replaced node is returned");
            sv::reach("replaced");
        }
        (Err(()), Err(())) => {
            sv::reach("error");
        }
        (Ok(None), Ok(Some(_))) => sv::check(false, "a replaced node is returned"),
        (Ok(Some(_)), Ok(None)) => sv::check(false, "nothing is returned when nothing was replaced"),
        (Err(()), _) => sv::check(false, "adding under directories succeeds"),
        (_, Err(())) => sv::check(false, "adding under a file is an error"),
    }
    sv::check(same(&g, &t), "the tree is the old one plus the new node and missing directories, or unchanged on error");
    sv::check(sorted(&g), "every directory stays sorted without duplicates");
}

fn model_find<'a>(v: &'a [N], path: &[Vec<u8>]) -> Option<&'a N> {
    let (h, r) = path.split_first()?;
    for x in v {
        if beq(&x.name, h) {
            if r.is_empty() {
                return Some(x);
            }
            return if x.dir { model_find(&x.kids, r) } else { None };
        }
    }
    None
}
fn model_remove(v: &mut Vec<N>, path: &[Vec<u8>]) -> Option<N> {
    let (h, r) = path.split_first()?;
    for i in 0..v.len() {
        if beq(&v[i].name, h) {
            if r.is_empty() {
                return Some(v.remove(i));
            }
            return if v[i].dir { model_remove(&mut v[i].kids, r) } else { None };
        }
    }
    None
}
/// C08: removing
#[no_mangle]
pub extern "C" fn h_fst_remove(a: u64) {
    let (mut n, pl, nl, d) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000 % 10);
    let mut t = forest(&mut n, d, nl);
    sv::assume(unique(&t));
    let path: Vec<Vec<u8>> = (0..pl).map(|_| name("path", nl)).collect();
    let mut f = fst(&t);
    let p = join(&path);
    let r = f.remove_node_path(&p);
    let w = model_remove(&mut t, &path);
    match (&r, &w) {
        (None, None) => sv::reach("absent"),
        (Some(x), Some(y)) => {
            sv::check(same_node(&from_node(x), y), "the removed node is returned with its subtree");
            sv::reach("removed");
        }
        _ => sv::check(false, "a node is returned exactly when one exists at the path"),
    }
    sv::check(same(&from_fst(&f), &t), "exactly that node is gone");
}
/// C09: lookup
#[no_mangle]
pub extern "C" fn h_fst_find(a: u64) {
    let (mut n, pl, nl, d) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000 % 10);
    let t = forest(&mut n, d, nl);
    sv::assume(unique(&t));
    let path: Vec<Vec<u8>> = (0..pl).map(|_| name("path", nl)).collect();
    let mut f = fst(&t);
    let p = join(&path);
    let w = model_find(&t, &path);
    let r = f.find_node_path(&p).map(|x| (x as *const FstNode, from_node(x)));
    match (&r, w) {
        (None, None) => sv::reach("absent"),
        (Some(x), Some(y)) => {
            sv::check(same_node(&x.1, y), "the node at the path is found");
            sv::reach("found");
        }
        (None, Some(_)) => sv::check(false, "an existing node is found"),
        (Some(_), None) => sv::check(false, "nothing is found when the path names no node"),
    }
    let m = f.find_node_path_mut(&p).map(|x| x as *const FstNode);
    sv::check(m == r.as_ref().map(|x| x.0), "the mutable lookup refers to the same node");
    if let (Some(x), Some(_)) = (f.find_node_path_mut(&p), w) {
        if let FstNode::File { length, .. } = x {
            *length = 0x1234;
            let ok = matches!(f.find_node_path(&p), Some(FstNode::File { length: 0x1234, .. }));
            sv::check(ok, "changes through the mutable lookup are seen");
        }
    }
}

fn ord(a: &[u8], b: &[u8]) -> Ordering {
    FstNode::create_file(s(a)).node_compare(&FstNode::create_dir(s(b)))
}
fn mord(a: &[u8], b: &[u8]) -> i8 {
    clt(b, a) as i8 - clt(a, b) as i8
}
/// name bytes without restriction to ASCII (no NUL)
fn raw(what: &str, max: u64) -> Vec<u8> {
    let n = sv::choose(what, max + 1);
    (0..n).map(|_| sv::val(what, 8, 1, 0x7f) as u8).collect()
}
/// C10: the order of two names is the case-folded byte order
#[no_mangle]
pub extern "C" fn h_fst_ord(a: u64) {
    let x = raw("x", a);
    let y = raw("y", a);
    let o = ord(&x, &y) as i8;
    sv::check(o == mord(&x, &y), "node order is the byte order of the case-folded names");
    sv::check(ord(&y, &x) as i8 == -o, "node order is antisymmetric");
    sv::check((o == 0) == ceq(&x, &y), "equal exactly when equal ignoring case");
    sv::reach("done");
}
/// C05, C06: large tables; a = 0: more than 64 KiB of names, 1: directories nested 256 deep, 2: many entries (thorough)
#[no_mangle]
pub extern "C" fn h_fst_big(a: u64) {
    let file = |name: Vec<u8>| N { name, dir: false, kids: vec![], off: sv::val("off", 64, 0, (1 << 32) - 1) << 2, len: sv::u32v("len") };
    let dir = |name: Vec<u8>, kids| N { name, dir: true, kids, off: 0, len: 0 };
    let mut t = vec![];
    match a {
        0 => {
            for i in 0..3u8 {
                let mut kids = vec![];
                for j in 0..100u8 {
                    let mut n = vec![b'a' + i; 250];
                    n[0] = b'A' + j % 26;
                    n[1] = b'A' + j / 26;
                    n[249] = chr("last");
                    kids.push(file(n));
                }
                t.push(dir(vec![b'd', b'0' + i], kids));
            }
            t.push(file(vec![chr("end")]));
        }
        1 => {
            t = vec![file(vec![chr("leaf")])];
            for i in 0..256 {
                t = vec![dir(vec![b'a' + (i % 26) as u8], t), file(vec![b'z', chr("side")])];
            }
        }
        _ => {
            for i in 0..300u32 {
                let kids = (0..a as u32).map(|j| N { name: vec![b'f', b'a' + (j % 26) as u8, b'a' + (j / 26) as u8], dir: false, kids: vec![], off: 4 * j as u64, len: i * j }).collect();
                t.push(dir(vec![b'd', b'a' + (i % 26) as u8, b'a' + (i / 26) as u8], kids));
            }
            t.push(file(vec![chr("end")]));
        }
    }
    let b = ser(&fst(&t));
    let total = 1 + count(&t) as u32;
    sv::check(b.len() >= total as usize * 12, "all entries are present");
    sv::check(be(&b, 0) >> 24 == 1 && be(&b, 4) == 0 && be(&b, 8) == total, "root entry is a directory counting all entries");
    let root = total as usize * 12 + (be(&b, 0) & 0xffffff) as usize;
    sv::check(root < b.len() && b[root] == 0, "the name of the root is empty");
    let mut idx = 1;
    walk(&b, &t, 0, &mut idx, total);
    sv::check(idx == total, "depth-first order covers all entries");
    match Fst::read(&mut Cursor::new(&b), 0) {
        Ok(g) => sv::check(same(&from_fst(&g), &t), "parsing the serialised table gives back the tree"),
        Err(_) => sv::check(false, "a serialised table parses"),
    }
    sv::reach("done");
}
/// C10: transitivity, and two-byte UTF-8 names
#[no_mangle]
pub extern "C" fn h_fst_ord3(a: u64) {
    let mk = |w: &str| -> Vec<u8> {
        if a >= 10 {
            let n = sv::choose(w, a - 9);
            let mut v = vec![];
            for _ in 0..n {
                if sv::choose(w, 2) == 0 {
                    v.push(sv::val(w, 8, 1, 0x7f) as u8);
                } else {
                    v.push(sv::val(w, 8, 0xc2, 0xdf) as u8);
                    v.push(sv::val(w, 8, 0x80, 0xbf) as u8);
                }
            }
            v
        } else {
            raw(w, a)
        }
    };
    let (x, y, z) = (mk("x"), mk("y"), mk("z"));
    let (p, q, r) = (ord(&x, &y), ord(&y, &z), ord(&x, &z));
    sv::check(p as i8 == mord(&x, &y), "node order is the byte order of the case-folded names");
    if p != Ordering::Greater && q != Ordering::Greater {
        sv::check(r != Ordering::Greater, "node order is transitive");
        if p == Ordering::Less || q == Ordering::Less {
            sv::check(r == Ordering::Less, "node order is strictly transitive");
        }
        sv::reach("chain");
    }
}
fn weakly_sorted(v: &[N]) -> bool {
    let mut r = true;
    for i in 0..v.len() {
        if i > 0 {
            r &= !clt(&v[i].name, &v[i - 1].name);
        }
        r &= weakly_sorted(&v[i].kids);
    }
    r
}
/// sub-multiset check by node identity: every file carries a unique offset, directories by content
fn perm(a: &[N], b: &[N]) -> bool {
    // a was given unique tags in `len` (files) or the name of its first child's tag (directories)
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    for x in a {
        let mut hit = false;
        for j in 0..b.len() {
            if !used[j] && x.dir == b[j].dir && tag(x) == tag(&b[j]) {
                used[j] = true;
                hit = x.name.len() == b[j].name.len() && beq(&x.name, &b[j].name) && x.off == b[j].off && perm(&x.kids, &b[j].kids);
                break;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}
/// a concrete identity: files have a concrete length, directories contain one marker file
fn tag(x: &N) -> u32 {
    if x.dir {
        x.kids.iter().filter(|k| !k.dir && k.len >= 1000).map(|k| k.len).next().unwrap_or(0)
    } else {
        x.len
    }
}
fn tagged(budget: &mut u64, next: &mut u32, depth: u64, nl: u64) -> Vec<N> {
    let mut v = vec![];
    while *budget > 0 {
        let k = sv::choose("shape", if depth > 1 { 3 } else { 2 });
        if k == 0 {
            break;
        }
        *budget -= 1;
        *next += 1;
        let id = *next;
        let nm = name("name", nl);
        if k == 1 {
            v.push(N { name: nm, dir: false, kids: vec![], off: 8, len: id });
        } else {
            let mut kids = tagged(budget, next, depth - 1, nl);
            kids.push(N { name: vec![chr("mark")], dir: false, kids: vec![], off: 4, len: 1000 + id });
            v.push(N { name: nm, dir: true, kids, off: 0, len: 0 });
        }
    }
    v
}
/// C10: re-sorting
#[no_mangle]
pub extern "C" fn h_fst_sort(a: u64) {
    let (mut n, nl, d) = (a % 10, a / 10 % 10, a / 100 % 10);
    let mut id = 0;
    let t = tagged(&mut n, &mut id, d, nl);
    let mut f = fst(&t);
    f.fix_ordering();
    let g = from_fst(&f);
    sv::check(weakly_sorted(&g), "every directory is sorted after re-sorting");
    sv::check(perm(&t, &g), "re-sorting keeps exactly the same nodes");
    sv::reach("done");
    if id >= 2 {
        sv::reach("several");
    }
}
/// C10: re-sorting a wide directory (one symbolic name among many)
#[no_mangle]
pub extern "C" fn h_fst_sort_wide(a: u64) {
    let mut t: Vec<N> = (0..a).map(|i| N { name: format!("{:c<2$}{}", "", (i * 7) % a, (i % 3) as usize).into_bytes(), dir: false, kids: vec![], off: 8, len: i as u32 + 1 }).collect();
    let at = sv::choose("at", a) as usize;
    t[at].name = vec![chr("n")];
    let mut f = fst(&t);
    f.fix_ordering();
    let g = from_fst(&f);
    sv::check(weakly_sorted(&g), "every directory is sorted after re-sorting");
    sv::check(perm(&t, &g), "re-sorting keeps exactly the same nodes");
    sv::reach("done");
}

fn dfs(v: &[N], path: &mut Vec<Vec<u8>>, only_files: bool, out: &mut Vec<(Vec<Vec<u8>>, N)>) {
    for n in v {
        path.push(n.name.clone());
        if !n.dir || !only_files {
            out.push((path.clone(), n.clone()));
        }
        dfs(&n.kids, path, only_files, out);
        path.pop();
    }
}
fn same_path(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= beq(&a[i], &b[i]);
    }
    r
}
/// C11: the three traversals
#[no_mangle]
pub extern "C" fn h_fst_walk(a: u64) {
    let (mut n, nl, d, which) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000);
    let t = forest(&mut n, d, nl);
    let mut want = vec![];
    dfs(&t, &mut vec![], which == 2, &mut want);
    // the callback fails at this call (never, when it is the number of calls)
    let fail = sv::choose("fail", want.len() as u64 + 1);
    let mut got: Vec<(Vec<Vec<u8>>, N)> = vec![];
    let mut k = 0u64;
    let total;
    let r = match which {
        0 => {
            let f = fst(&t);
            total = 0;
            f.callback_all_files::<u64, _>(&mut |p, node| {
                if k == fail {
                    return Err(k);
                }
                k += 1;
                got.push((p.iter().map(|x| x.as_bytes().to_vec()).collect(), from_node(node)));
                Ok(())
            })
        }
        1 => {
            let mut f = fst(&t);
            total = 0;
            f.callback_all_files_mut::<u64, _>(&mut |p, node| {
                if k == fail {
                    return Err(k);
                }
                k += 1;
                got.push((p.iter().map(|x| x.as_bytes().to_vec()).collect(), from_node(node)));
                Ok(())
            })
        }
        _ => {
            let mut b = FstToBytes::try_from(fst(&t)).ok().unwrap();
            total = b.get_total_file_count() as u64;
            b.callback_all_files_mut::<u64, _>(&mut |p, off, len| {
                if k == fail {
                    return Err(k);
                }
                k += 1;
                let p: Vec<Vec<u8>> = p.iter().map(|x| x.as_bytes().to_vec()).collect();
                let nm = p.last().unwrap().clone();
                got.push((p, N { name: nm, dir: false, kids: vec![], off: *off, len: *len }));
                Ok(())
            })
        }
    };
    if which == 2 {
        sv::check(total == files(&t), "the reported file count is the number of files");
    }
    if fail < want.len() as u64 {
        sv::check(r == Err(fail), "the callback's error stops the traversal and is returned");
        sv::reach("error");
    } else {
        sv::check(r == Ok(()), "a traversal without errors succeeds");
    }
    sv::check(got.len() as u64 == fail.min(want.len() as u64), "every node is visited exactly once");
    for i in 0..got.len().min(want.len()) {
        sv::check(same_path(&got[i].0, &want[i].0), "nodes are visited in order with their full path");
        sv::check(same_node(&got[i].1, &want[i].1), "the callback sees the node itself");
    }
    sv::reach("done");
}
/// C11: changes made in the mutable traversals are kept; children of a renamed directory see the new name
#[no_mangle]
pub extern "C" fn h_fst_walk_mut(a: u64) {
    let (mut n, nl, d, which) = (a % 10, a / 10 % 10, a / 100 % 10, a / 1000);
    let t = forest(&mut n, d, nl);
    if which == 2 {
        let mut b = FstToBytes::try_from(fst(&t)).ok().unwrap();
        let mut k = 0u32;
        b.callback_all_files_mut::<(), _>(&mut |_, off, len| {
            k += 1;
            *off = 16 * k as u64;
            *len = k;
            Ok(())
        })
        .unwrap();
        fn renum(v: &mut [N], k: &mut u32) {
            for x in v {
                if x.dir {
                    renum(&mut x.kids, k);
                } else {
                    *k += 1;
                    x.off = 16 * *k as u64;
                    x.len = *k;
                }
            }
        }
        let mut w = t.clone();
        renum(&mut w, &mut 0);
        let mut out = Vec::new();
        b.write_to(&mut Cursor::new(&mut out)).unwrap();
        let g = Fst::read(&mut Cursor::new(&out), 0).unwrap();
        sv::check(same(&from_fst(&g), &w), "offsets and lengths set by the callback are kept");
        sv::reach("done");
        return;
    }
    let total = count(&t);
    if total == 0 {
        return;
    }
    let at = sv::choose("at", total);
    let new = name("new", 2);
    let mut w = t.clone();
    fn ren(v: &mut [N], k: &mut u64, at: u64, new: &[u8]) {
        for x in v {
            if *k == at {
                x.name = new.to_vec();
            }
            *k += 1;
            ren(&mut x.kids, k, at, new);
        }
    }
    ren(&mut w, &mut 0, at, &new);
    let mut want = vec![];
    dfs(&w, &mut vec![], false, &mut want);
    let mut f = fst(&t);
    let mut k = 0;
    let mut got: Vec<Vec<Vec<u8>>> = vec![];
    f.callback_all_files_mut::<(), _>(&mut |p, node| {
        let mut q: Vec<Vec<u8>> = p.iter().map(|x| x.as_bytes().to_vec()).collect();
        if k == at {
            q.pop();
            q.push(new.clone());
            match node {
                FstNode::File { name, .. } => *name = s(&new),
                FstNode::Directory { name, .. } => *name = s(&new),
            }
        }
        got.push(q);
        k += 1;
        Ok(())
    })
    .unwrap();
    sv::check(got.len() == want.len(), "every node is visited exactly once");
    for i in 0..got.len().min(want.len()) {
        sv::check(same_path(&got[i], &want[i].0), "after a rename the path uses the new name");
    }
    sv::check(same(&from_fst(&f), &w), "the rename is kept and nothing else changed");
    sv::reach("done");
}
