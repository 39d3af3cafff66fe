//! Byte-addressed memory contents: flat cell vectors for small objects, ropes for big ones.
//! A rope maps concrete ranges to segments over an infinite base segment; writes at symbolic
//! offsets or of symbolic length become layers.
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const UNDEF_T: T = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Cell {
    pub t: T,
    pub b: u8,
}
pub const UNDEF: Cell = Cell { t: UNDEF_T, b: 0 };
impl Cell {
    #[inline]
    pub fn con(b: u8) -> Cell {
        Cell { t: 0, b }
    }
    #[inline]
    pub fn is_con(&self) -> bool {
        self.t == 0
    }
    #[inline]
    pub fn is_undef(&self) -> bool {
        self.t == UNDEF_T
    }
    /// 8-bit term
    pub fn term(&self) -> T {
        if self.t == 0 {
            con(self.b as u128, 8)
        } else if self.t == UNDEF_T {
            con(0, 8)
        } else {
            extract(self.t, self.b as u16 * 8, 8)
        }
    }
    pub fn from_term(t: T) -> Cell {
        match cval(t) {
            Some(v) => Cell::con(v as u8),
            None => Cell { t, b: 0 },
        }
    }
}

#[derive(Clone)]
pub enum K {
    Cells(Rc<Vec<Cell>>, usize),
    Fill(u8),
    Undef,
    Arr(u32, T),
    Lay(Rc<Layer>, T),
    View(Rc<Rope>, T),
}
pub struct Layer {
    pub off: T,
    pub len: T,
    pub src: K,
    pub below: Rc<Rope>,
}
#[derive(Clone)]
pub struct Seg {
    pub len: u64,
    pub k: K,
}
#[derive(Clone)]
pub struct Rope {
    pub segs: BTreeMap<u64, Seg>,
    pub base: K,
}

#[derive(Clone)]
pub enum Content {
    Flat(Rc<Vec<Cell>>),
    Rope(Rc<Rope>),
}

pub const FLAT_MAX: u64 = 2048;

pub enum MErr {
    /// the offset term has to be made concrete
    Concretize(T),
}
pub type MR<X> = Result<X, MErr>;

fn c64(v: u64) -> T {
    con(v as u128, 64)
}

impl K {
    /// debugging aid
    pub fn show(&self) -> String {
        match self {
            K::Cells(_, o) => format!("cells+{o}"),
            K::Fill(b) => format!("fill {b}"),
            K::Undef => "undef".into(),
            K::Arr(a, o) => format!("arr {a} at {}", show(*o)),
            K::Lay(l, o) => format!("layer [{} len {}] of ({}) at {}", show(l.off), show(l.len), l.src.show(), show(*o)),
            K::View(r, o) => format!("view of {} segs at {}", r.segs.len(), show(*o)),
        }
    }
    pub fn advance(&self, n: u64) -> K {
        if n == 0 {
            return self.clone();
        }
        match self {
            K::Cells(c, o) => K::Cells(c.clone(), o + n as usize),
            K::Fill(b) => K::Fill(*b),
            K::Undef => K::Undef,
            K::Arr(a, o) => K::Arr(*a, add(*o, c64(n))),
            K::Lay(l, o) => K::Lay(l.clone(), add(*o, c64(n))),
            K::View(r, o) => K::View(r.clone(), add(*o, c64(n))),
        }
    }
    pub fn advance_t(&self, n: T) -> MR<K> {
        if let Some(c) = cval(n) {
            return Ok(self.advance(c as u64));
        }
        Ok(match self {
            K::Cells(..) => {
                // wrap into a rope so that a symbolic offset can be used
                let mut r = Rope { segs: BTreeMap::new(), base: K::Undef };
                if let K::Cells(c, o) = self {
                    r.segs.insert(0, Seg { len: (c.len() - o) as u64, k: self.clone() });
                }
                K::View(Rc::new(r), n)
            }
            K::Fill(b) => K::Fill(*b),
            K::Undef => K::Undef,
            K::Arr(a, o) => K::Arr(*a, add(*o, n)),
            K::Lay(l, o) => K::Lay(l.clone(), add(*o, n)),
            K::View(r, o) => K::View(r.clone(), add(*o, n)),
        })
    }
    /// byte at relative index i (i concrete)
    pub fn cell(&self, i: u64) -> MR<Cell> {
        match self {
            K::Cells(c, o) => Ok(c[o + i as usize]),
            K::Fill(b) => Ok(Cell::con(*b)),
            K::Undef => Ok(UNDEF),
            K::Arr(a, o) => Ok(Cell { t: sel(*a, add(*o, c64(i))), b: 0 }),
            K::Lay(l, o) => {
                let p = add(*o, c64(i));
                Ok(Cell::from_term(layer_byte(l, p, rng(p))?))
            }
            K::View(r, o) => {
                let p = add(*o, c64(i));
                r.byte_cell(p)
            }
        }
    }
    /// byte at symbolic relative index i whose value is known to lie in [lo,hi]
    fn byte_t(&self, i: T, lo: u64, hi: u64) -> MR<T> {
        match self {
            K::Fill(b) => Ok(con(*b as u128, 8)),
            K::Undef => Ok(con(0, 8)),
            K::Arr(a, o) => Ok(sel(*a, add(*o, i))),
            K::Lay(l, o) => {
                let p = add(*o, i);
                layer_byte(l, p, clip(p, *o, lo, hi))
            }
            K::View(r, o) => {
                let p = add(*o, i);
                let (a, b) = clip(p, *o, lo, hi);
                r.byte_t(p, a as u64, b as u64)
            }
            K::Cells(c, o) => {
                if lo == hi {
                    return Ok(c[o + lo as usize].term());
                }
                let hi = hi.min((c.len() - o) as u64 - 1);
                let n = hi - lo + 1;
                // runs of equal cells, and of consecutive elements of one array
                #[derive(Clone, Copy)]
                struct Run {
                    at: u64,
                    c: Cell,
                    arr: Option<(u32, T)>,
                    n: u64,
                    same: bool,
                }
                fn sel_of(c: Cell) -> Option<(u32, T)> {
                    if c.is_con() || c.is_undef() || c.b != 0 {
                        return None;
                    }
                    let n = node(c.t);
                    if n.op == Op::Sel {
                        Some((n.k as u32, n.a))
                    } else {
                        None
                    }
                }
                let mut runs: Vec<Run> = vec![];
                for j in lo..=hi {
                    let x = c[o + j as usize];
                    if let Some(r) = runs.last_mut() {
                        if r.same && r.c == x {
                            r.n += 1;
                            continue;
                        }
                        if let (Some((a, b)), Some((a2, b2))) = (r.arr, sel_of(x)) {
                            if (r.n == 1 || !r.same) && a == a2 && add(b, c64(r.n)) == b2 {
                                r.same = false;
                                r.n += 1;
                                continue;
                            }
                        }
                    }
                    runs.push(Run { at: j, c: x, arr: sel_of(x), n: 1, same: true });
                }
                if runs.len() > 600 && n > 600 {
                    return Err(MErr::Concretize(i));
                }
                // balanced selection tree over run starts
                fn tree(i: T, runs: &[Run]) -> T {
                    if runs.len() == 1 {
                        let r = &runs[0];
                        if r.same {
                            return r.c.term();
                        }
                        let (a, b) = r.arr.unwrap();
                        return sel(a, add(b, sub(i, c64(r.at))));
                    }
                    let m = runs.len() / 2;
                    let c = ult(i, c64(runs[m].at));
                    ite(c, tree(i, &runs[..m]), tree(i, &runs[m..]))
                }
                Ok(tree(i, &runs))
            }
        }
    }
}

fn clip(p: T, o: T, lo: u64, hi: u64) -> (u128, u128) {
    // p = o + i, i in [lo,hi]
    let (pl, ph) = rng(p);
    let (ol, oh) = rng(o);
    let a = ol.checked_add(lo as u128);
    let b = oh.checked_add(hi as u128);
    match (a, b) {
        (Some(a), Some(b)) if b <= u64::MAX as u128 => {
            let (x, y) = (pl.max(a), ph.min(b));
            if x <= y {
                (x, y)
            } else {
                (a, b)
            }
        }
        _ => (pl, ph),
    }
}

thread_local! {
    static BYTE_MEMO: RefCell<HashMap<(usize, T, u64, u64), (Rc<Layer>, T)>> = RefCell::new(HashMap::new());
}

fn layer_byte(l: &Rc<Layer>, p: T, r: (u128, u128)) -> MR<T> {
    let key = (Rc::as_ptr(l) as usize, p, r.0 as u64, r.1 as u64);
    if let Some(x) = BYTE_MEMO.with(|m| m.borrow().get(&key).map(|x| x.1)) {
        return Ok(x);
    }
    let d = sub(p, l.off);
    let inside = ult(d, l.len);
    let v = if cval(inside) == Some(1) {
        let (a, b) = rng(d);
        l.src.byte_t(d, a as u64, b as u64)?
    } else if cval(inside) == Some(0) {
        l.below.byte_t(p, r.0 as u64, r.1 as u64)?
    } else {
        let hi = rng(l.len).1.saturating_sub(1);
        let (da, db) = rng(d);
        let (da, db) = (da.min(hi), db.min(hi));
        // below when d wraps its interval may be everything: restrict to [0, maxlen)
        let (da, db) = if da <= db { (da, db) } else { (0, hi) };
        let a = l.src.byte_t(d, da as u64, db as u64)?;
        let b = l.below.byte_t(p, r.0 as u64, r.1 as u64)?;
        ite(inside, a, b)
    };
    BYTE_MEMO.with(|m| m.borrow_mut().insert(key, (l.clone(), v)));
    Ok(v)
}

impl Rope {
    pub fn new(base: K) -> Rope {
        Rope { segs: BTreeMap::new(), base }
    }
    fn base_at(&self, pos: u64) -> K {
        self.base.advance(pos)
    }
    /// (relative start, segment) pieces covering [start, start+len) with base filled in
    pub fn slice(&self, start: u64, len: u64) -> Vec<(u64, Seg)> {
        let mut out: Vec<(u64, Seg)> = vec![];
        if len == 0 {
            return out;
        }
        let end = start + len;
        let mut pos = start;
        let first = self.segs.range(..=start).next_back().map(|x| *x.0).unwrap_or(start);
        for (&s, g) in self.segs.range(first..end) {
            let e = s + g.len;
            if e <= pos {
                continue;
            }
            if s > pos {
                out.push((pos - start, Seg { len: s - pos, k: self.base_at(pos) }));
                pos = s;
            }
            let t = e.min(end);
            out.push((pos - start, Seg { len: t - pos, k: g.k.advance(pos - s) }));
            pos = t;
            if pos >= end {
                break;
            }
        }
        if pos < end {
            out.push((pos - start, Seg { len: end - pos, k: self.base_at(pos) }));
        }
        out
    }
    pub fn cells(&self, start: u64, len: u64) -> MR<Vec<Cell>> {
        let mut out = Vec::with_capacity(len as usize);
        for (_, g) in self.slice(start, len) {
            match &g.k {
                K::Cells(c, o) => out.extend_from_slice(&c[*o..*o + g.len as usize]),
                K::Fill(b) => out.resize(out.len() + g.len as usize, Cell::con(*b)),
                K::Undef => out.resize(out.len() + g.len as usize, UNDEF),
                _ => {
                    for i in 0..g.len {
                        out.push(g.k.cell(i)?);
                    }
                }
            }
        }
        Ok(out)
    }
    pub fn byte_cell(&self, p: T) -> MR<Cell> {
        if let Some(c) = cval(p) {
            let v = self.slice(c as u64, 1);
            return v[0].1.k.cell(0);
        }
        let (lo, hi) = rng(p);
        Ok(Cell::from_term(self.byte_t(p, lo as u64, hi as u64)?))
    }
    pub fn byte_t(&self, p: T, lo: u64, hi: u64) -> MR<T> {
        if let Some(c) = cval(p) {
            let v = self.slice(c as u64, 1);
            return Ok(v[0].1.k.cell(0)?.term());
        }
        // pieces over [lo,hi]
        let n = (hi - lo).saturating_add(1);
        let ps = self.slice(lo, if n == 0 { u64::MAX - lo } else { n.min(u64::MAX - lo) });
        if ps.len() > 4000 {
            return Err(MErr::Concretize(p));
        }
        let mut vals: Vec<(u64, T)> = vec![]; // piece start, value
        for (rel, g) in ps {
            let s = lo + rel;
            let e = s + (g.len - 1);
            // g.k is positioned at s: index = p - s
            let i = sub(p, c64(s));
            let v = match &g.k {
                // keep identity offsets: evaluate at p directly
                K::Arr(a, o) => sel(*a, add(*o, i)),
                K::Lay(l, o) => {
                    let q = add(*o, i);
                    let ol = rng(*o);
                    let r = if ol.0 == ol.1 {
                        (ol.0, ol.0 + (e - s) as u128)
                    } else {
                        rng(q)
                    };
                    layer_byte(l, q, r)?
                }
                k => k.byte_t(i, 0, e - s)?,
            };
            match vals.last() {
                Some((_, t)) if *t == v => {}
                _ => vals.push((s, v)),
            }
        }
        fn tree(p: T, v: &[(u64, T)]) -> T {
            if v.len() == 1 {
                return v[0].1;
            }
            let m = v.len() / 2;
            ite(ult(p, c64(v[m].0)), tree(p, &v[..m]), tree(p, &v[m..]))
        }
        Ok(tree(p, &vals))
    }
    fn split_at(&mut self, pos: u64) {
        if let Some((&s, g)) = self.segs.range(..pos).next_back() {
            if s + g.len > pos {
                let right = Seg { len: s + g.len - pos, k: g.k.advance(pos - s) };
                let g = self.segs.get_mut(&s).unwrap();
                g.len = pos - s;
                self.segs.insert(pos, right);
            }
        }
    }
    pub fn put(&mut self, start: u64, len: u64, k: K) {
        if len == 0 {
            return;
        }
        self.split_at(start);
        self.split_at(start + len);
        let del: Vec<u64> = self.segs.range(start..start + len).map(|x| *x.0).collect();
        for d in del {
            self.segs.remove(&d);
        }
        // merge with the previous segment when it continues it
        if let Some((&ps, pg)) = self.segs.range_mut(..start).next_back() {
            if ps + pg.len == start {
                let ok = match (&pg.k, &k) {
                    (K::Fill(a), K::Fill(b)) => a == b,
                    (K::Arr(a, o), K::Arr(b, o2)) => a == b && add(*o, c64(pg.len)) == *o2,
                    (K::Lay(a, o), K::Lay(b, o2)) => Rc::ptr_eq(a, b) && add(*o, c64(pg.len)) == *o2,
                    (K::View(a, o), K::View(b, o2)) => Rc::ptr_eq(a, b) && add(*o, c64(pg.len)) == *o2,
                    _ => false,
                };
                if ok {
                    pg.len += len;
                    return;
                }
                if let (K::Cells(a, o), K::Cells(b, o2)) = (&mut pg.k, &k) {
                    if pg.len + len <= 4096 && *o + pg.len as usize == a.len() {
                        let v = Rc::make_mut(a);
                        v.extend_from_slice(&b[*o2..*o2 + len as usize]);
                        pg.len += len;
                        return;
                    }
                }
            }
        }
        self.segs.insert(start, Seg { len, k });
    }
    pub fn put_cells(&mut self, start: u64, cells: &[Cell]) {
        let n = cells.len() as u64;
        if n == 0 {
            return;
        }
        if let Some((&s, g)) = self.segs.range_mut(..=start).next_back() {
            if s + g.len >= start + n {
                if let K::Cells(c, o) = &mut g.k {
                    let at = *o + (start - s) as usize;
                    Rc::make_mut(c)[at..at + n as usize].copy_from_slice(cells);
                    return;
                }
            }
        }
        // uniform concrete data becomes a fill
        if n >= 32 && cells[0].is_con() && cells.iter().all(|c| *c == cells[0]) {
            self.put(start, n, K::Fill(cells[0].b));
            return;
        }
        self.put(start, n, K::Cells(Rc::new(cells.to_vec()), 0));
    }
}

impl Content {
    pub fn undef(size: u64) -> Content {
        if size <= FLAT_MAX {
            Content::Flat(Rc::new(vec![UNDEF; size as usize]))
        } else {
            Content::Rope(Rc::new(Rope::new(K::Undef)))
        }
    }
    pub fn rope(&self) -> Rc<Rope> {
        match self {
            Content::Rope(r) => r.clone(),
            Content::Flat(f) => {
                let mut r = Rope::new(K::Undef);
                if !f.is_empty() {
                    r.segs.insert(0, Seg { len: f.len() as u64, k: K::Cells(f.clone(), 0) });
                }
                Rc::new(r)
            }
        }
    }
    pub fn cells(&self, start: u64, len: u64) -> MR<Vec<Cell>> {
        match self {
            Content::Flat(f) => Ok(f[start as usize..(start + len) as usize].to_vec()),
            Content::Rope(r) => r.cells(start, len),
        }
    }
    pub fn put_cells(&mut self, start: u64, cells: &[Cell]) {
        match self {
            Content::Flat(f) => {
                Rc::make_mut(f)[start as usize..start as usize + cells.len()].copy_from_slice(cells)
            }
            Content::Rope(r) => Rc::make_mut(r).put_cells(start, cells),
        }
    }
    pub fn byte(&self, p: T) -> MR<Cell> {
        self.rope_ref(|r| r.byte_cell(p))
    }
    fn rope_ref<X>(&self, f: impl FnOnce(&Rope) -> X) -> X {
        match self {
            Content::Rope(r) => f(r),
            Content::Flat(_) => f(&self.rope()),
        }
    }
    /// pieces of [off, off+len) relative to off; off may be symbolic, len concrete
    pub fn slice_k(&self, off: T, len: u64) -> Vec<(u64, Seg)> {
        if let Some(o) = cval(off) {
            return self.rope_ref(|r| r.slice(o as u64, len));
        }
        vec![(0, Seg { len, k: self.view(off, len as u128) })]
    }
    /// a segment kind standing for this content from offset off on (up to maxlen bytes)
    pub fn view(&self, off: T, maxlen: u128) -> K {
        let r = self.rope();
        view_of(&r, off, maxlen)
    }
    pub fn put_segs(&mut self, start: u64, segs: Vec<(u64, Seg)>) {
        match self {
            Content::Flat(f) => {
                let v = Rc::make_mut(f);
                for (rel, g) in segs {
                    for i in 0..g.len {
                        // small objects: cells always resolvable one by one
                        v[(start + rel + i) as usize] = match g.k.cell(i) {
                            Ok(c) => c,
                            Err(_) => UNDEF,
                        };
                    }
                }
            }
            Content::Rope(r) => {
                let r = Rc::make_mut(r);
                for (rel, g) in segs {
                    match &g.k {
                        K::Cells(c, o) => r.put_cells(start + rel, &c[*o..*o + g.len as usize]),
                        k => r.put(start + rel, g.len, k.clone()),
                    }
                }
            }
        }
    }
    pub fn put_layer(&mut self, off: T, len: T, src: K) {
        let below = self.rope();
        let l = Rc::new(Layer { off, len, src, below });
        *self = Content::Rope(Rc::new(Rope::new(K::Lay(l, c64(0)))));
    }
}

pub fn view_of(r: &Rc<Rope>, off: T, maxlen: u128) -> K {
    let (lo, hi) = rng(off);
    let end = hi.saturating_add(maxlen);
    if end < (1 << 62) {
        let ps = r.slice(lo as u64, (end - lo) as u64);
        if ps.len() == 1 {
            let k = &ps[0].1.k;
            // k is positioned at lo
            match k {
                K::Cells(..) if cval(off).is_none() => {}
                K::View(r2, o2) => {
                    let no = add(*o2, sub(off, con(lo, 64)));
                    return view_of(r2, no, maxlen);
                }
                k => {
                    if let Ok(k2) = k.advance_t(sub(off, con(lo, 64))) {
                        return k2;
                    }
                }
            }
        }
    }
    K::View(r.clone(), off)
}

// ---------- canonical form of byte sequences (for hashing and encryption) ----------
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Pc {
    B(u8, u64),
    A(u32, T, u64),
    S(T),
    L(u32, u64), // interned mixed piece
    U(u64),
}

#[derive(PartialEq, Eq, Hash, Clone)]
struct MixKey {
    rel: T,
    len: T,
    src: SrcKey,
    below: Vec<Pc>,
}
#[derive(PartialEq, Eq, Hash, Clone)]
enum SrcKey {
    Arr(u32, T),
    Fill(u8),
    Ptr(usize, T),
    Pcs(Vec<Pc>),
}

#[derive(Default)]
pub struct Canon {
    mix: HashMap<MixKey, u32>,
    keep: Vec<Rc<Rope>>,
    keepl: Vec<Rc<Layer>>,
}

fn pc_push(out: &mut Vec<Pc>, p: Pc) {
    if let Some(l) = out.last_mut() {
        match (&mut *l, &p) {
            (Pc::B(a, n), Pc::B(b, m)) if *a == *b => {
                *n += m;
                return;
            }
            (Pc::U(n), Pc::U(m)) => {
                *n += m;
                return;
            }
            (Pc::A(a, o, n), Pc::A(b, o2, m)) if *a == *b && add(*o, c64(*n)) == *o2 => {
                *n += m;
                return;
            }
            _ => {}
        }
    }
    out.push(p);
}

impl Canon {
    fn push_cell(&mut self, out: &mut Vec<Pc>, c: Cell) {
        if c.is_con() {
            pc_push(out, Pc::B(c.b, 1));
        } else if c.is_undef() {
            pc_push(out, Pc::U(1));
        } else {
            let t = c.term();
            let n = node(t);
            match n.op {
                Op::Const => pc_push(out, Pc::B(n.k as u8, 1)),
                Op::Sel => pc_push(out, Pc::A(n.k as u32, n.a, 1)),
                _ => pc_push(out, Pc::S(t)),
            }
        }
    }
    pub fn push_seg(&mut self, out: &mut Vec<Pc>, g: &Seg) -> MR<()> {
        match &g.k {
            K::Cells(c, o) => {
                for x in &c[*o..*o + g.len as usize] {
                    self.push_cell(out, *x);
                }
            }
            K::Fill(b) => pc_push(out, Pc::B(*b, g.len)),
            K::Undef => pc_push(out, Pc::U(g.len)),
            K::Arr(a, o) => pc_push(out, Pc::A(*a, *o, g.len)),
            K::View(r, o) => {
                if let Some(c) = cval(*o) {
                    for (_, s) in r.slice(c as u64, g.len) {
                        self.push_seg(out, &s)?;
                    }
                } else {
                    match view_of(r, *o, g.len as u128) {
                        K::View(r, o) => {
                            // byte by byte when short, otherwise opaque by identity
                            if g.len <= 64 {
                                for i in 0..g.len {
                                    let c = K::View(r.clone(), o).cell(i)?;
                                    self.push_cell(out, c);
                                }
                            } else {
                                self.keep.push(r.clone());
                                let key = MixKey {
                                    rel: o,
                                    len: con(0, 64),
                                    src: SrcKey::Ptr(Rc::as_ptr(&r) as usize, o),
                                    below: vec![],
                                };
                                let id = self.intern(key);
                                pc_push(out, Pc::L(id, g.len));
                            }
                        }
                        k => self.push_seg(out, &Seg { len: g.len, k })?,
                    }
                }
            }
            K::Lay(l, o) => {
                // window [o, o+len)
                let rel = sub(l.off, *o); // layer start relative to the window
                let (rl, rh) = rng(rel);
                let (_, lh) = rng(l.len);
                let big = 1u128 << 63;
                let disjoint = (rl >= g.len as u128 && rh < big)
                    || (rl >= big && {
                        // layer starts before the window: start + len <= window start?
                        let back = (1u128 << 64) - rh; // minimal distance
                        lh <= back
                    })
                    || lh == 0;
                if disjoint {
                    for (_, s) in slice_t(&l.below, *o, g.len) {
                        self.push_seg(out, &s)?;
                    }
                    return Ok(());
                }
                if let (Some(r), Some(ln)) = (cval(rel), cval(l.len)) {
                    // fully concrete placement relative to the window
                    let r = r as u64 as i64 as i128;
                    let s = r.max(0) as u64;
                    let e = (r + ln as i128).min(g.len as i128) as u64;
                    if s > 0 {
                        for (_, x) in slice_t(&l.below, *o, s) {
                            self.push_seg(out, &x)?;
                        }
                    }
                    if e > s {
                        let adv = (s as i128 - r) as u64;
                        self.push_seg(out, &Seg { len: e - s, k: l.src.advance(adv) })?;
                    }
                    if g.len > e.max(s) {
                        let f = e.max(s);
                        for (_, x) in slice_t(&l.below, add(*o, c64(f)), g.len - f) {
                            self.push_seg(out, &x)?;
                        }
                    }
                    return Ok(());
                }
                // contained?
                if let Some(r) = cval(rel) {
                    let r = r as u64 as i64 as i128;
                    if r <= 0 && rng(l.len).0 as i128 + r >= g.len as i128 {
                        return self.push_seg(out, &Seg { len: g.len, k: l.src.advance((-r) as u64) });
                    }
                }
                let mut below = vec![];
                for (_, s) in slice_t(&l.below, *o, g.len) {
                    self.push_seg(&mut below, &s)?;
                }
                let src = match &l.src {
                    K::Arr(a, o) => SrcKey::Arr(*a, *o),
                    K::Fill(b) => SrcKey::Fill(*b),
                    K::View(r, o) => {
                        self.keep.push(r.clone());
                        SrcKey::Ptr(Rc::as_ptr(r) as usize, *o)
                    }
                    K::Cells(c, o) => {
                        let mut v = vec![];
                        for x in &c[*o..] {
                            self.push_cell(&mut v, *x);
                        }
                        SrcKey::Pcs(v)
                    }
                    K::Lay(l2, o) => {
                        self.keepl.push(l2.clone());
                        SrcKey::Ptr(Rc::as_ptr(l2) as usize, *o)
                    }
                    K::Undef => SrcKey::Pcs(vec![]),
                };
                let id = self.intern(MixKey { rel, len: l.len, src, below });
                pc_push(out, Pc::L(id, g.len));
            }
        }
        Ok(())
    }
    fn intern(&mut self, k: MixKey) -> u32 {
        let n = self.mix.len() as u32;
        *self.mix.entry(k).or_insert(n)
    }
    pub fn canon(&mut self, segs: &[(u64, Seg)]) -> MR<Vec<Pc>> {
        let mut out = vec![];
        for (_, s) in segs {
            self.push_seg(&mut out, s)?;
        }
        Ok(out)
    }
}

fn slice_t(r: &Rc<Rope>, off: T, len: u64) -> Vec<(u64, Seg)> {
    match cval(off) {
        Some(o) => r.slice(o as u64, len),
        None => vec![(0, Seg { len, k: view_of(r, off, len as u128) })],
    }
}
