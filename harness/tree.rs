//! Symbolic file trees and an independent model of them.
#![allow(dead_code)]
use crate::sv;
use disc_riider::*;

#[derive(Clone)]
pub struct N {
    pub name: Vec<u8>,
    pub dir: bool,
    pub kids: Vec<N>,
    pub off: u64,
    pub len: u32,
}

pub fn s(v: &[u8]) -> String {
    // symbolic bytes: the callers guarantee valid UTF-8, and validating would fork on every byte
    unsafe { String::from_utf8_unchecked(v.to_vec()) }
}

/// a name byte: any printable ASCII character that is not a path separator
pub fn chr(what: &str) -> u8 {
    let c = sv::val(what, 8, 0x20, 0x7e) as u8;
    sv::assume(c != b'/');
    c
}
/// a name of 1..=max printable ASCII characters; max = 9: one character of one or two bytes
pub fn name(what: &str, max: u64) -> Vec<u8> {
    if max == 9 {
        return if sv::choose(what, 2) == 0 { vec![chr(what)] } else { vec![sv::val(what, 8, 0xc2, 0xdf) as u8, sv::val(what, 8, 0x80, 0xbf) as u8] };
    }
    let n = 1 + sv::choose(what, max);
    (0..n).map(|_| chr(what)).collect()
}
/// a name over a small alphabet that still has case pairs and characters around the letters
pub fn lower(c: u8) -> u8 {
    // branch free
    c | (((c.wrapping_sub(b'A') < 26) as u8) << 5)
}

/// all forests of at most `budget` nodes and depth `depth`; names of at most `nl` characters
pub fn forest(budget: &mut u64, depth: u64, nl: u64) -> Vec<N> {
    let mut v = vec![];
    while *budget > 0 {
        let k = sv::choose("shape", if depth > 1 { 3 } else { 2 });
        if k == 0 {
            break;
        }
        *budget -= 1;
        let nm = name("name", nl);
        if k == 1 {
            v.push(N { name: nm, dir: false, kids: vec![], off: sv::val("off", 64, 0, (1 << 32) - 1) << 2, len: sv::u32v("len") });
        } else {
            let kids = forest(budget, depth - 1, nl);
            v.push(N { name: nm, dir: true, kids, off: 0, len: 0 });
        }
    }
    v
}
/// the same without symbolic names: node i is called by a fixed distinct name
pub fn count(v: &[N]) -> u64 {
    v.iter().map(|n| 1 + count(&n.kids)).sum()
}
pub fn files(v: &[N]) -> u64 {
    v.iter().map(|n| if n.dir { files(&n.kids) } else { 1 }).sum()
}

pub fn to_fst(v: &[N]) -> Vec<FstNode> {
    v.iter()
        .map(|n| {
            if n.dir {
                FstNode::Directory { name: s(&n.name), files: to_fst(&n.kids) }
            } else {
                FstNode::File { name: s(&n.name), offset: n.off, length: n.len }
            }
        })
        .collect()
}
pub fn fst(v: &[N]) -> Fst {
    let mut f = Fst::new();
    *f.get_entries_mut() = to_fst(v);
    f
}
pub fn from_node(x: &FstNode) -> N {
    match x {
        FstNode::Directory { name, files } => N { name: name.as_bytes().to_vec(), dir: true, kids: files.iter().map(from_node).collect(), off: 0, len: 0 },
        FstNode::File { name, offset, length } => N { name: name.as_bytes().to_vec(), dir: false, kids: vec![], off: *offset, len: *length },
    }
}
pub fn from_fst(f: &Fst) -> Vec<N> {
    f.get_entries().iter().map(from_node).collect()
}

/// equality of byte strings as a value, without branching on their contents
pub fn beq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// equality ignoring ASCII case
pub fn ceq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= lower(a[i]) ^ lower(b[i]);
    }
    d == 0
}
/// a < b in case-insensitive order
pub fn clt(a: &[u8], b: &[u8]) -> bool {
    let m = a.len().min(b.len());
    let mut r = a.len() < b.len();
    for i in (0..m).rev() {
        let (x, y) = (lower(a[i]), lower(b[i]));
        r = (x < y) | ((x == y) & r);
    }
    r
}
pub fn same_node(a: &N, b: &N) -> bool {
    if a.dir != b.dir || a.kids.len() != b.kids.len() || a.name.len() != b.name.len() {
        return false;
    }
    let mut r = beq(&a.name, &b.name) & (a.off == b.off) & (a.len == b.len);
    for i in 0..a.kids.len() {
        r &= same_node(&a.kids[i], &b.kids[i]);
    }
    r
}
pub fn same(a: &[N], b: &[N]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= same_node(&a[i], &b[i]);
    }
    r
}
/// strictly sorted (hence unique) in every directory
pub fn sorted(v: &[N]) -> bool {
    let mut r = true;
    for i in 0..v.len() {
        if i > 0 {
            r &= clt(&v[i - 1].name, &v[i].name);
        }
        if v[i].dir {
            r &= sorted(&v[i].kids);
        }
    }
    r
}
/// pairwise different names in every directory
pub fn unique(v: &[N]) -> bool {
    let mut r = true;
    for i in 0..v.len() {
        for j in 0..i {
            r &= !beq(&v[i].name, &v[j].name);
        }
        if v[i].dir {
            r &= unique(&v[i].kids);
        }
    }
    r
}
