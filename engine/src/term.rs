//! Hash-consed bit-vector terms (width 1..=128) with a normalising constructor
//! layer: linear sums modulo 2^w, interval facts, and division by constants.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,     // k = var id
    Sel,     // a = index (64 bit), k = array id, width 8
    Lin,     // k = index into lins
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not, // width 1 only
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // k = lo
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    FBin, // k = kind (0 add,1 sub,2 mul,3 div), float of width w
    FConv, // k = kind: 0 ui->fp 1 si->fp 2 fp->ui.sat 3 fp->si.sat
    FCmp, // k = 0 lt 1 le 2 eq
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

pub struct LinD {
    pub c0: u128,
    pub ts: Vec<(T, u128)>,
}

#[derive(Clone)]
pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub range: Vec<(u128, u128)>,
    map: HashMap<Node, T>,
    pub lins: Vec<Rc<LinD>>,
    linmap: HashMap<(u16, u128, Vec<(T, u128)>), T>,
    pub vars: Vec<VarInfo>,
    pub arrs: Vec<String>,
    deps: RefCell<HashMap<T, Rc<Vec<u32>>>>,
    pub simpl: Cell<u64>,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();

#[inline]
pub fn ar() -> &'static mut Arena {
    unsafe { &mut *ARENA }
}

pub fn init() {
    let a = Box::new(Arena {
        nodes: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }],
        range: vec![(0, 0)],
        map: HashMap::new(),
        lins: vec![],
        linmap: HashMap::new(),
        vars: vec![],
        arrs: vec![],
        deps: RefCell::new(HashMap::new()),
        simpl: Cell::new(0),
    });
    unsafe { ARENA = Box::into_raw(a) }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
fn sgn(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}
#[inline]
pub fn node(t: T) -> Node {
    ar().nodes[t as usize]
}
#[inline]
pub fn width(t: T) -> u16 {
    ar().nodes[t as usize].w
}
#[inline]
pub fn rng(t: T) -> (u128, u128) {
    ar().range[t as usize]
}
#[inline]
pub fn cval(t: T) -> Option<u128> {
    let n = &ar().nodes[t as usize];
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}

fn intern(n: Node, r: (u128, u128)) -> T {
    let a = ar();
    if let Some(&t) = a.map.get(&n) {
        return t;
    }
    // collapse to constant when the interval is a point
    if n.op != Op::Const && r.0 == r.1 {
        return con(r.0, n.w);
    }
    let id = a.nodes.len() as T;
    a.nodes.push(n);
    a.range.push(r);
    a.map.insert(n, id);
    id
}

pub fn con(v: u128, w: u16) -> T {
    let v = v & mask(w);
    intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v }, (v, v))
}
pub fn tru() -> T {
    con(1, 1)
}
pub fn fls() -> T {
    con(0, 1)
}

pub fn var(name: &str, w: u16, lo: u128, hi: u128) -> T {
    let a = ar();
    let id = a.vars.len();
    a.vars.push(VarInfo { name: name.to_string(), w, lo, hi });
    intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 }, (lo, hi))
}
pub fn fresh(name: &str, w: u16) -> T {
    var(name, w, 0, mask(w))
}
pub fn new_arr(name: &str) -> u32 {
    let a = ar();
    a.arrs.push(name.to_string());
    (a.arrs.len() - 1) as u32
}
pub fn sel(arr: u32, idx: T) -> T {
    debug_assert_eq!(width(idx), 64);
    intern(Node { op: Op::Sel, w: 8, a: idx, b: 0, c: 0, k: arr as u128 }, (0, 255))
}

fn mk(op: Op, w: u16, a: T, b: T, c: T, k: u128, r: (u128, u128)) -> T {
    intern(Node { op, w, a, b, c, k }, r)
}

// ---------- linear sums ----------
fn lin_parts(t: T) -> (u128, Vec<(T, u128)>) {
    let n = node(t);
    match n.op {
        Op::Const => (n.k, vec![]),
        Op::Lin => {
            let l = &ar().lins[n.k as usize];
            (l.c0, l.ts.clone())
        }
        _ => (0, vec![(t, 1)]),
    }
}

fn lin_range(c0: u128, ts: &[(T, u128)], w: u16) -> (u128, u128) {
    if w > 100 {
        return (0, mask(w));
    }
    // try c0 unsigned first, then signed
    let full = 1i128 << w;
    for cs in [c0 as i128, sgn(c0, w)] {
        let mut lo = cs;
        let mut hi = cs;
        let mut ok = true;
        for &(t, k) in ts {
            let k = sgn(k, w);
            let (a, b) = rng(t);
            let (a, b) = (a as i128, b as i128);
            let (x, y) = match (k.checked_mul(a), k.checked_mul(b)) {
                (Some(x), Some(y)) => (x, y),
                _ => {
                    ok = false;
                    break;
                }
            };
            let (x, y) = if x <= y { (x, y) } else { (y, x) };
            match (lo.checked_add(x), hi.checked_add(y)) {
                (Some(x), Some(y)) => {
                    lo = x;
                    hi = y;
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if !ok {
            continue;
        }
        let q = lo.div_euclid(full);
        if q == hi.div_euclid(full) {
            return ((lo - q * full) as u128, (hi - q * full) as u128);
        }
    }
    (0, mask(w))
}

pub fn mk_lin(c0: u128, mut ts: Vec<(T, u128)>, w: u16) -> T {
    let m = mask(w);
    let c0 = c0 & m;
    if ts.len() > 1 {
        ts.sort_unstable();
        let mut o: Vec<(T, u128)> = Vec::with_capacity(ts.len());
        for (t, k) in ts {
            if let Some(l) = o.last_mut() {
                if l.0 == t {
                    l.1 = l.1.wrapping_add(k) & m;
                    continue;
                }
            }
            o.push((t, k & m));
        }
        ts = o;
    }
    ts.retain(|x| x.1 & m != 0);
    if ts.is_empty() {
        return con(c0, w);
    }
    if ts.len() > 1 {
        // the two halves of a wide shift: 2^n * x[n-s..n] + (x << s)
        for i in 0..ts.len() {
            let n = node(ts[i].0);
            if n.op != Op::ZExt || ts[i].1 != 1 {
                continue;
            }
            let l = node(n.a);
            if l.op != Op::Lin {
                continue;
            }
            let d = ar().lins[l.k as usize].clone();
            if d.c0 != 0 || d.ts.len() != 1 || !d.ts[0].1.is_power_of_two() {
                continue;
            }
            let (x, s) = (d.ts[0].0, d.ts[0].1.trailing_zeros() as u16);
            let top = zext(extract(x, l.w - s, s), w);
            if let Some(j) = ts.iter().position(|e| *e == (top, 1 << l.w)) {
                ts[i] = (zext(x, w), 1 << s);
                ts.remove(j);
                return mk_lin(c0, ts, w);
            }
        }
    }
    if c0 == 0 && ts.len() == 1 && ts[0].1 == 1 {
        return ts[0].0;
    }
    if ts.len() == 1 && ts[0].1 == 1 {
        // a constant added to a choice that has a constant
        let n = node(ts[0].0);
        if n.op == Op::Ite && (cval(n.b).is_some() || cval(n.c).is_some()) {
            let k = con(c0, w);
            return ite(n.a, add(n.b, k), add(n.c, k));
        }
    }
    let a = ar();
    let key = (w, c0, ts);
    if let Some(&t) = a.linmap.get(&key) {
        return t;
    }
    let r = lin_range(c0, &key.2, w);
    if r.0 == r.1 {
        return con(r.0, w);
    }
    let li = a.lins.len();
    a.lins.push(Rc::new(LinD { c0, ts: key.2.clone() }));
    let t = intern(Node { op: Op::Lin, w, a: 0, b: 0, c: 0, k: li as u128 }, r);
    a.linmap.insert(key, t);
    t
}

pub fn add(a: T, b: T) -> T {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        return xor(a, b);
    }
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return con(x.wrapping_add(y), w);
    }
    let (c1, mut t1) = lin_parts(a);
    let (c2, t2) = lin_parts(b);
    t1.extend(t2);
    mk_lin(c1.wrapping_add(c2), t1, w)
}
pub fn sub(a: T, b: T) -> T {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        return xor(a, b);
    }
    if a == b {
        return con(0, w);
    }
    let (c1, mut t1) = lin_parts(a);
    let (c2, t2) = lin_parts(b);
    for (t, k) in t2 {
        t1.push((t, k.wrapping_neg() & mask(w)));
    }
    mk_lin(c1.wrapping_sub(c2), t1, w)
}
pub fn mulc(a: T, k: u128) -> T {
    let w = width(a);
    let m = mask(w);
    let (c, ts) = lin_parts(a);
    mk_lin(
        c.wrapping_mul(k),
        ts.into_iter().map(|(t, x)| (t, x.wrapping_mul(k) & m)).collect(),
        w,
    )
}
pub fn mul(a: T, b: T) -> T {
    let w = width(a);
    if w == 1 {
        return and(a, b);
    }
    if let Some(k) = cval(a) {
        return mulc(b, k);
    }
    if let Some(k) = cval(b) {
        return mulc(a, k);
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    let (ra, rb) = (rng(a), rng(b));
    let r = match ra.1.checked_mul(rb.1) {
        Some(h) if h <= mask(w) => (ra.0 * rb.0, h),
        _ => (0, mask(w)),
    };
    mk(Op::Mul, w, a, b, 0, 0, r)
}

/// Exact-integer linear form of t (valid when the sum does not wrap).
fn int_lin(t: T) -> Option<(i128, Vec<(T, i128)>)> {
    let n = node(t);
    let w = n.w;
    if w > 100 {
        return None;
    }
    match n.op {
        Op::Const => Some((n.k as i128, vec![])),
        Op::Lin => {
            let l = ar().lins[n.k as usize].clone();
            let ts: Vec<(T, i128)> = l.ts.iter().map(|&(t, k)| (t, sgn(k, w))).collect();
            for c0 in [l.c0 as i128, sgn(l.c0, w)] {
                if let Some((lo, hi)) = int_range(c0, &ts) {
                    if lo >= 0 && hi < (1i128 << w) {
                        return Some((c0, ts));
                    }
                }
            }
            None
        }
        _ => Some((0, vec![(t, 1)])),
    }
}
fn int_range(c0: i128, ts: &[(T, i128)]) -> Option<(i128, i128)> {
    let mut lo = c0;
    let mut hi = c0;
    for &(t, k) in ts {
        let (a, b) = rng(t);
        if b > (1u128 << 100) {
            return None;
        }
        let x = k.checked_mul(a as i128)?;
        let y = k.checked_mul(b as i128)?;
        let (x, y) = if x <= y { (x, y) } else { (y, x) };
        lo = lo.checked_add(x)?;
        hi = hi.checked_add(y)?;
    }
    Some((lo, hi))
}
fn from_int(c0: i128, ts: &[(T, i128)], w: u16) -> T {
    mk_lin(
        (c0 as u128) & mask(w),
        ts.iter().map(|&(t, k)| (t, (k as u128) & mask(w))).collect(),
        w,
    )
}

/// Split x = C*Q + R with R's interval inside one multiple-of-C window.
/// Returns (Q, R) as terms when exact; otherwise None.
fn div_split(x: T, c: u128, partial: bool) -> Option<(T, T, bool)> {
    let w = width(x);
    if w > 64 || c > (1u128 << 90) {
        return None;
    }
    let (c0, ts) = int_lin(x)?;
    let c = c as i128;
    let mut q: Vec<(T, i128)> = vec![];
    let mut r: Vec<(T, i128)> = vec![];
    for (t, k) in ts {
        if k % c == 0 {
            q.push((t, k / c));
        } else {
            r.push((t, k));
        }
    }
    if q.is_empty() && r.len() == 1 && r[0].1 == 1 && c0 == 0 {
        // plain term, nothing to split
        return None;
    }
    let mut qc = c0.div_euclid(c);
    let mut rc = c0.rem_euclid(c);
    let (lo, hi) = int_range(rc, &r)?;
    let m = lo.div_euclid(c);
    if m == hi.div_euclid(c) {
        qc += m;
        rc -= m * c;
        let (ql, qh) = int_range(qc, &q)?;
        if ql < 0 || qh >= (1i128 << w) {
            return None;
        }
        return Some((from_int(qc, &q, w), from_int(rc, &r, w), true));
    }
    if partial && !(q.is_empty() && qc == 0) && lo >= 0 && hi < (1i128 << w) {
        let (ql, qh) = int_range(qc, &q)?;
        if ql < 0 || qh >= (1i128 << w) {
            return None;
        }
        return Some((from_int(qc, &q, w), from_int(rc, &r, w), false));
    }
    None
}

pub fn udiv(a: T, b: T) -> T {
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        if y != 0 {
            return con(x / y, w);
        }
    }
    if let Some(c) = cval(b) {
        if c == 1 {
            return a;
        }
        if c != 0 {
            if c.is_power_of_two() {
                return lshrc(a, c.trailing_zeros() as u16);
            }
            let (lo, hi) = rng(a);
            if lo / c == hi / c {
                return con(lo / c, w);
            }
            if let Some((q, r, exact)) = div_split(a, c, true) {
                if exact {
                    return q;
                }
                return add(q, udiv(r, b));
            }
            let n = node(a);
            if n.op == Op::UDiv {
                if let Some(c1) = cval(n.b) {
                    if c1 != 0 && c1.checked_mul(c).map_or(false, |p| p <= mask(w)) {
                        return udiv(n.a, con(c1 * c, w));
                    }
                }
            }
            return mk(Op::UDiv, w, a, b, 0, 0, (lo / c, hi / c));
        }
    }
    mk(Op::UDiv, w, a, b, 0, 0, (0, mask(w)))
}
pub fn urem(a: T, b: T) -> T {
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        if y != 0 {
            return con(x % y, w);
        }
    }
    if let Some(c) = cval(b) {
        if c == 1 {
            return con(0, w);
        }
        if c != 0 {
            if c.is_power_of_two() {
                return zext(extract(a, 0, c.trailing_zeros() as u16), w);
            }
            let (lo, hi) = rng(a);
            if hi < c {
                return a;
            }
            if lo / c == hi / c {
                return sub(a, con(lo / c * c, w));
            }
            if let Some((_, r, exact)) = div_split(a, c, true) {
                if exact {
                    return r;
                }
                return urem(r, b);
            }
            let n = node(a);
            if n.op == Op::URem {
                if let Some(c1) = cval(n.b) {
                    if c1 != 0 && c1 % c == 0 {
                        return urem(n.a, b);
                    }
                }
            }
            return mk(Op::URem, w, a, b, 0, 0, (0, c - 1));
        }
    }
    mk(Op::URem, w, a, b, 0, 0, (0, mask(w)))
}
pub fn sdiv(a: T, b: T) -> T {
    let w = width(a);
    let half = 1u128 << (w - 1);
    if rng(a).1 < half && rng(b).1 < half {
        return udiv(a, b);
    }
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        if y != 0 {
            return con(sgn(x, w).wrapping_div(sgn(y, w)) as u128, w);
        }
    }
    mk(Op::SDiv, w, a, b, 0, 0, (0, mask(w)))
}
pub fn srem(a: T, b: T) -> T {
    let w = width(a);
    let half = 1u128 << (w - 1);
    if rng(a).1 < half && rng(b).1 < half {
        return urem(a, b);
    }
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        if y != 0 {
            return con(sgn(x, w).wrapping_rem(sgn(y, w)) as u128, w);
        }
    }
    mk(Op::SRem, w, a, b, 0, 0, (0, mask(w)))
}

// ---------- bits ----------
pub fn not(a: T) -> T {
    let n = node(a);
    let w = n.w;
    if w != 1 {
        return sub(con(mask(w), w), a);
    }
    match n.op {
        Op::Const => con(n.k ^ 1, 1),
        Op::Not => n.a,
        _ => mk(Op::Not, 1, a, 0, 0, 0, (0, 1)),
    }
}

pub fn and(a: T, b: T) -> T {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return a;
    }
    let (a, b) = if cval(a).is_some() { (b, a) } else { (a, b) };
    if let Some(m) = cval(b) {
        if let Some(x) = cval(a) {
            return con(x & m, w);
        }
        if m == 0 {
            return b;
        }
        if m == mask(w) {
            return a;
        }
        let tz = m.trailing_zeros() as u16;
        let s = m >> tz;
        if (s & (s + 1)) == 0 {
            // contiguous ones [tz, tz+n)
            let n = (128 - s.leading_zeros()) as u16;
            let top = tz + n;
            if rng(a).1 <= mask(top) && tz == 0 {
                return a;
            }
            let hi = lshrc(a, tz);
            let x = if top == w { hi } else { zext(extract(hi, 0, n), w) };
            return if tz == 0 { x } else { shlc(x, tz) };
        }
        // push through concat / zext
        let na = node(a);
        if na.op == Op::ZExt {
            let wi = width(na.a);
            return zext(and(na.a, con(m, wi)), w);
        }
        if na.op == Op::Concat {
            let wl = width(na.b);
            let h = and(na.a, con(m >> wl, w - wl));
            let l = and(na.b, con(m, wl));
            return concat(h, l);
        }
        if na.op == Op::And {
            if let Some(m2) = cval(na.b) {
                return and(na.a, con(m & m2, w));
            }
        }
        return mk(Op::And, w, a, b, 0, 0, (0, m.min(pow_up(rng(a).1))));
    }
    if w == 1 && (node(a).op == Op::Not && node(a).a == b || node(b).op == Op::Not && node(b).a == a)
    {
        return con(0, 1);
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    mk(Op::And, w, a, b, 0, 0, (0, rng(a).1.min(rng(b).1)))
}
fn pow_up(h: u128) -> u128 {
    if h == 0 {
        0
    } else {
        mask(128 - h.leading_zeros() as u16)
    }
}
pub fn or(a: T, b: T) -> T {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return a;
    }
    let (a, b) = if cval(a).is_some() { (b, a) } else { (a, b) };
    if let Some(m) = cval(b) {
        if let Some(x) = cval(a) {
            return con(x | m, w);
        }
        if m == 0 {
            return a;
        }
        if m == mask(w) {
            return b;
        }
    }
    if w == 1 {
        if node(a).op == Op::Not && node(a).a == b || node(b).op == Op::Not && node(b).a == a {
            return con(1, 1);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        return mk(Op::Or, 1, a, b, 0, 0, (0, 1));
    }
    // disjoint bits: or == concat / add
    if let Some(t) = or_disjoint(a, b, w) {
        return t;
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    let (ra, rb) = (rng(a), rng(b));
    mk(Op::Or, w, a, b, 0, 0, (ra.0.max(rb.0), pow_up(ra.1.max(rb.1))))
}
/// number of known trailing zero bits
pub fn ktz(t: T) -> u16 {
    ktz_d(t, 5)
}
fn ktz_d(t: T, d: u32) -> u16 {
    let n = node(t);
    if d == 0 && n.op != Op::Const {
        return 0;
    }
    let d = d.saturating_sub(1);
    match n.op {
        Op::Const => {
            if n.k == 0 {
                n.w
            } else {
                n.k.trailing_zeros() as u16
            }
        }
        Op::Lin => {
            let l = ar().lins[n.k as usize].clone();
            let mut z = if l.c0 == 0 { n.w } else { l.c0.trailing_zeros() as u16 };
            for &(t, k) in &l.ts {
                z = z.min(k.trailing_zeros() as u16 + ktz_d(t, d));
            }
            z.min(n.w)
        }
        Op::ZExt => ktz_d(n.a, d),
        Op::Concat => {
            let z = ktz_d(n.b, d);
            if z == width(n.b) {
                z + ktz_d(n.a, d)
            } else {
                z
            }
        }
        Op::And => ktz_d(n.a, d).max(ktz_d(n.b, d)),
        Op::Or | Op::Xor => ktz_d(n.a, d).min(ktz_d(n.b, d)),
        Op::Ite => ktz_d(n.b, d).min(ktz_d(n.c, d)),
        _ => 0,
    }
}
fn or_disjoint(a: T, b: T, w: u16) -> Option<T> {
    let za = ktz(a);
    let zb = ktz(b);
    if za > 0 && rng(b).1 <= mask(za.min(w)) && za < w {
        return Some(add(a, b));
    }
    if zb > 0 && rng(a).1 <= mask(zb.min(w)) && zb < w {
        return Some(add(a, b));
    }
    None
}
pub fn xor(a: T, b: T) -> T {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return con(0, w);
    }
    let (a, b) = if cval(a).is_some() { (b, a) } else { (a, b) };
    if let Some(m) = cval(b) {
        if let Some(x) = cval(a) {
            return con(x ^ m, w);
        }
        if m == 0 {
            return a;
        }
        if w == 1 {
            return not(a);
        }
        if m == mask(w) {
            return not(a);
        }
        let n = node(a);
        if n.op == Op::ZExt && m <= mask(width(n.a)) {
            return zext(xor(n.a, con(m, width(n.a))), w);
        }
    }
    if w == 1 {
        // xor(a,b) = not eq
        return not(eq(a, b));
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    mk(Op::Xor, w, a, b, 0, 0, (0, pow_up(rng(a).1.max(rng(b).1))))
}
pub fn shlc(a: T, k: u16) -> T {
    let w = width(a);
    if k >= w {
        return con(0, w);
    }
    mulc(a, 1u128 << k)
}
pub fn lshrc(a: T, k: u16) -> T {
    let w = width(a);
    if k == 0 {
        return a;
    }
    if k >= w {
        return con(0, w);
    }
    if let Some(x) = cval(a) {
        return con(x >> k, w);
    }
    let (lo, hi) = rng(a);
    if lo >> k == hi >> k {
        return con(lo >> k, w);
    }
    if let Some((q, _, true)) = div_split(a, 1u128 << k, false) {
        return q;
    }
    zext(extract(a, k, w - k), w)
}
pub fn shl(a: T, b: T) -> T {
    let w = width(a);
    if let Some(k) = cval(b) {
        return shlc(a, k.min(w as u128) as u16);
    }
    mk(Op::Shl, w, a, b, 0, 0, (0, mask(w)))
}
pub fn lshr(a: T, b: T) -> T {
    let w = width(a);
    if let Some(k) = cval(b) {
        return lshrc(a, k.min(w as u128) as u16);
    }
    mk(Op::LShr, w, a, b, 0, 0, (0, rng(a).1))
}
pub fn ashr(a: T, b: T) -> T {
    let w = width(a);
    if rng(a).1 < 1u128 << (w - 1) {
        return lshr(a, b);
    }
    if let Some(k) = cval(b) {
        let k = k.min(w as u128 - 1) as u16;
        if k == 0 {
            return a;
        }
        if let Some(x) = cval(a) {
            return con((sgn(x, w) >> k) as u128, w);
        }
        return sext(extract(a, k, w - k), w);
    }
    mk(Op::AShr, w, a, b, 0, 0, (0, mask(w)))
}

pub fn extract(a: T, lo: u16, n: u16) -> T {
    let nd = node(a);
    let w = nd.w;
    debug_assert!(lo + n <= w && n > 0, "extract {} {} of {}", lo, n, w);
    if lo == 0 && n == w {
        return a;
    }
    match nd.op {
        Op::Const => return con(nd.k >> lo, n),
        Op::Extract => return extract(nd.a, nd.k as u16 + lo, n),
        Op::ZExt => {
            let wi = width(nd.a);
            if lo >= wi {
                return con(0, n);
            }
            if lo + n <= wi {
                return extract(nd.a, lo, n);
            }
            return zext(extract(nd.a, lo, wi - lo), n);
        }
        Op::SExt => {
            let wi = width(nd.a);
            if lo + n <= wi {
                return extract(nd.a, lo, n);
            }
        }
        Op::Concat => {
            let wl = width(nd.b);
            if lo + n <= wl {
                return extract(nd.b, lo, n);
            }
            if lo >= wl {
                return extract(nd.a, lo - wl, n);
            }
            return concat(extract(nd.a, 0, lo + n - wl), extract(nd.b, lo, wl - lo));
        }
        Op::And => return and(extract(nd.a, lo, n), extract(nd.b, lo, n)),
        Op::Or if w > 1 => return or(extract(nd.a, lo, n), extract(nd.b, lo, n)),
        Op::Xor => return xor(extract(nd.a, lo, n), extract(nd.b, lo, n)),
        Op::Ite => {
            if cval(nd.b).is_some() || cval(nd.c).is_some() {
                return ite(nd.a, extract(nd.b, lo, n), extract(nd.c, lo, n));
            }
        }
        Op::Lin => {
            // exact power-of-two multiples: bytes below are zero
            let z = ktz(a);
            if lo + n <= z {
                return con(0, n);
            }
            // fields packed into one word (disjoint sums)
            let l = ar().lins[nd.k as usize].clone();
            let e = lo + n;
            let low: Vec<_> = l.ts.iter().filter(|x| x.1 & mask(e) != 0).collect();
            if low.len() == 1 && l.ts.len() > 1 && low[0].1 == 1 && l.c0 & mask(e) == 0 {
                return extract(low[0].0, lo, n);
            }
            if l.c0 == 0 && l.ts.len() > 1 && l.ts.iter().all(|x| x.1.is_power_of_two()) {
                let mut f: Vec<(u16, T)> = l.ts.iter().map(|&(t, k)| (k.trailing_zeros() as u16, t)).collect();
                f.sort();
                let end = |i: usize| if i + 1 < f.len() { f[i + 1].0 } else { w };
                // every field stays below the start of the next one
                if (0..f.len()).all(|i| rng(f[i].1).1 <= mask(end(i) - f[i].0)) {
                    for i in 0..f.len() {
                        if f[i].0 <= lo && lo + n <= end(i) {
                            return extract(f[i].1, lo - f[i].0, n);
                        }
                    }
                }
            }
        }
        _ => {}
    }
    let (l, h) = rng(a);
    if (l >> lo) == (h >> lo) {
        return con(l >> lo, n);
    }
    let r = if (l >> (lo + n).min(127)) == (h >> (lo + n).min(127)) && lo + n < 128 {
        ((l >> lo) & mask(n), (h >> lo) & mask(n))
    } else {
        (0, mask(n))
    };
    mk(Op::Extract, n, a, 0, 0, lo as u128, r)
}

/// truncation that distributes over linear sums
pub fn trunc(a: T, n: u16) -> T {
    let nd = node(a);
    if nd.w == n {
        return a;
    }
    if nd.op == Op::Lin && n > 1 {
        let l = ar().lins[nd.k as usize].clone();
        let ts = l.ts.iter().map(|&(t, k)| (trunc(t, n), k & mask(n))).collect::<Vec<_>>();
        // re-add through parts so nested sums flatten
        let mut acc = con(l.c0, n);
        for (t, k) in ts {
            acc = add(acc, mulc(t, k));
        }
        return acc;
    }
    if nd.op == Op::Mul && n > 1 {
        return mul(trunc(nd.a, n), trunc(nd.b, n));
    }
    extract(a, 0, n)
}

fn merge_adj(h: T, l: T) -> Option<T> {
    let (nh, nl) = (node(h), node(l));
    if let (Op::Const, Op::Const) = (nh.op, nl.op) {
        return Some(con(nh.k << nl.w | nl.k, nh.w + nl.w));
    }
    let (bh, lh) = if nh.op == Op::Extract { (nh.a, nh.k as u16) } else { (h, 0) };
    let (bl, ll) = if nl.op == Op::Extract { (nl.a, nl.k as u16) } else { (l, 0) };
    if bh == bl && nh.op == Op::Extract && lh == ll + nl.w {
        return Some(extract(bl, ll, nh.w + nl.w));
    }
    // extract(zext) normalises away: handle high part that is the top of the base
    None
}
pub fn concat(h: T, l: T) -> T {
    let (nh, nl) = (node(h), node(l));
    let w = nh.w + nl.w;
    if let Some(t) = merge_adj(h, l) {
        return t;
    }
    if nh.op == Op::Const && nh.k == 0 {
        return zext(l, w);
    }
    if nh.op == Op::Concat {
        if let Some(m) = merge_adj(nh.b, l) {
            return concat(nh.a, m);
        }
    }
    if nh.op == Op::ZExt {
        // zext(x) ++ l = zext(x ++ l)
        return zext(concat(nh.a, l), w);
    }
    if nl.op == Op::Concat {
        // normalise to left nesting
        return concat(concat(h, nl.a), nl.b);
    }
    let (rh, rl) = (rng(h), rng(l));
    mk(Op::Concat, w, h, l, 0, 0, (rh.0 << nl.w | rl.0, rh.1 << nl.w | rl.1))
}
pub fn zext(a: T, w: u16) -> T {
    let n = node(a);
    if n.w == w {
        return a;
    }
    debug_assert!(n.w < w);
    match n.op {
        Op::Const => con(n.k, w),
        Op::ZExt => zext(n.a, w),
        Op::Lin => {
            if w <= 64 {
                if let Some((c0, ts)) = int_lin(a) {
                    let mut acc = con(c0 as u128 & mask(w), w);
                    for (t, k) in ts {
                        acc = add(acc, mulc(zext(t, w), k as u128 & mask(w)));
                    }
                    return acc;
                }
            }
            mk(Op::ZExt, w, a, 0, 0, 0, rng(a))
        }
        Op::Ite if cval(n.b).is_some() && cval(n.c).is_some() => {
            ite(n.a, zext(n.b, w), zext(n.c, w))
        }
        Op::Extract if n.k == 0 && rng(n.a).1 <= mask(n.w) => {
            // the truncation lost nothing
            let wa = width(n.a);
            if wa == w {
                n.a
            } else if wa < w {
                zext(n.a, w)
            } else {
                extract(n.a, 0, w)
            }
        }
        _ => mk(Op::ZExt, w, a, 0, 0, 0, rng(a)),
    }
}
pub fn sext(a: T, w: u16) -> T {
    let n = node(a);
    if n.w == w {
        return a;
    }
    if n.op == Op::Const {
        return con(sgn(n.k, n.w) as u128, w);
    }
    if rng(a).1 < 1u128 << (n.w - 1) {
        return zext(a, w);
    }
    if n.op == Op::SExt {
        return sext(n.a, w);
    }
    if n.w == 1 {
        return ite(a, con(mask(w), w), con(0, w));
    }
    mk(Op::SExt, w, a, 0, 0, 0, (0, mask(w)))
}
pub fn ite(c: T, a: T, b: T) -> T {
    if let Some(k) = cval(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let nc = node(c);
    if nc.op == Op::Not {
        return ite(nc.a, b, a);
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        match (cval(a), cval(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    if let (Some(1), Some(0)) = (cval(a), cval(b)) {
        return zext(c, w);
    }
    // minimum and maximum with a constant have one form: the condition compares with the constant on the right
    if nc.op == Op::Ult && cval(nc.a).is_some() {
        if nc.a == a && nc.b == b {
            return ite(ult(b, a), b, a);
        }
        if nc.a == b && nc.b == a {
            return ite(ult(a, b), b, a);
        }
    }
    let (ra, rb) = (rng(a), rng(b));
    let mut r = (ra.0.min(rb.0), ra.1.max(rb.1));
    // min/max patterns give tighter intervals
    if nc.op == Op::Ult {
        if nc.a == a && nc.b == b {
            r.1 = ra.1.min(rb.1);
            r.0 = ra.0.min(rb.0);
        } else if nc.a == b && nc.b == a {
            r.0 = ra.0.max(rb.0);
        } else if width(nc.a) == w {
            // the same, with both sides moved by a constant
            let moved = |x: T, y: T| match (cval(sub(x, nc.a)), cval(sub(y, nc.b))) {
                (Some(d), Some(e)) => d == e && rng(nc.a).1.max(rng(nc.b).1) <= mask(w) - d,
                _ => false,
            };
            if moved(a, b) {
                r.1 = ra.1.min(rb.1);
            } else if moved(b, a) {
                r.0 = ra.0.max(rb.0);
            }
        }
    }
    mk(Op::Ite, w, c, a, b, 0, r)
}
pub fn umin(a: T, b: T) -> T {
    ite(ult(a, b), a, b)
}
pub fn umax(a: T, b: T) -> T {
    ite(ult(a, b), b, a)
}

// ---------- comparisons ----------
pub fn eq(a: T, b: T) -> T {
    if a == b {
        return tru();
    }
    let (a, b) = if cval(a).is_some() { (b, a) } else { (a, b) };
    let (na, nb) = (node(a), node(b));
    debug_assert_eq!(na.w, nb.w);
    let w = na.w;
    if let Some(k) = cval(b) {
        if na.op == Op::Const {
            return fls();
        }
        if w == 1 {
            return if k == 1 { a } else { not(a) };
        }
        let (lo, hi) = rng(a);
        if k < lo || k > hi {
            return fls();
        }
        match na.op {
            Op::ZExt => {
                let wi = width(na.a);
                if k > mask(wi) {
                    return fls();
                }
                return eq(na.a, con(k, wi));
            }
            Op::Concat => {
                let wl = width(na.b);
                let h = eq(na.a, con(k >> wl, w - wl));
                if cval(h) == Some(0) {
                    return h;
                }
                let l = eq(na.b, con(k, wl));
                return and(h, l);
            }
            Op::Ite => {
                if let (Some(x), Some(y)) = (cval(na.b), cval(na.c)) {
                    return match (x == k, y == k) {
                        (true, true) => tru(),
                        (true, false) => na.a,
                        (false, true) => not(na.a),
                        _ => fls(),
                    };
                }
                if cval(na.b).is_some() || cval(na.c).is_some() {
                    return ite(na.a, eq(na.b, b), eq(na.c, b));
                }
            }
            Op::Lin => {
                let l = ar().lins[na.k as usize].clone();
                let z = ktz(a);
                if z > 0 && k & mask(z.min(w)) != 0 {
                    return fls();
                }
                if l.c0 != 0 {
                    let rest = mk_lin(0, l.ts.clone(), w);
                    return eq(rest, con(k.wrapping_sub(l.c0), w));
                }
                if l.ts.len() == 1 {
                    let (t, c) = l.ts[0];
                    if c & 1 == 1 && c == mask(w) {
                        return eq(t, con(k.wrapping_neg(), w));
                    }
                    // no-wrap multiple
                    if let Some((0, ts)) = int_lin(a) {
                        if ts.len() == 1 && ts[0].1 > 0 {
                            let c = ts[0].1 as u128;
                            return if k % c == 0 { eq(t, con(k / c, w)) } else { fls() };
                        }
                    }
                }
            }
            _ => {}
        }
    } else {
        let (ra, rb) = (rng(a), rng(b));
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return fls();
        }
        if na.op == Op::Lin || nb.op == Op::Lin {
            let d = sub(a, b);
            if let Some(k) = cval(d) {
                return if k == 0 { tru() } else { fls() };
            }
            let (lo, _) = rng(d);
            if lo > 0 {
                return fls();
            }
            // canonical form: d == 0 split into pos/neg sides is left to the solver
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
            return eq(na.a, nb.a);
        }
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    mk(Op::Eq, 1, a, b, 0, 0, (0, 1))
}
pub fn ne(a: T, b: T) -> T {
    not(eq(a, b))
}
pub fn ult(a: T, b: T) -> T {
    if a == b {
        return fls();
    }
    let (na, nb) = (node(a), node(b));
    debug_assert_eq!(na.w, nb.w);
    let w = na.w;
    let (ra, rb) = (rng(a), rng(b));
    if ra.1 < rb.0 {
        return tru();
    }
    if ra.0 >= rb.1 {
        return fls();
    }
    if w == 1 {
        return and(not(a), b);
    }
    if nb.op == Op::Const && nb.k == 1 {
        return eq(a, con(0, w));
    }
    if na.op == Op::Ite {
        if na.b == b {
            return and(not(na.a), ult(na.c, b));
        }
        if na.c == b {
            return and(na.a, ult(na.b, b));
        }
    }
    if nb.op == Op::Ite {
        if nb.b == a {
            return and(not(nb.a), ult(a, nb.c));
        }
        if nb.c == a {
            return and(nb.a, ult(a, nb.b));
        }
    }
    if na.op == Op::Const && na.k == 0 {
        return not(eq(b, a));
    }
    if w <= 64 {
        if let (Some((c1, t1)), Some((c2, t2))) = (int_lin(a), int_lin(b)) {
            // d = b - a as exact integers
            let mut ts: Vec<(T, i128)> = t2;
            for (t, k) in t1 {
                if let Some(e) = ts.iter_mut().find(|e| e.0 == t) {
                    e.1 -= k;
                } else {
                    ts.push((t, -k));
                }
            }
            ts.retain(|e| e.1 != 0);
            if let Some((lo, hi)) = int_range(c2 - c1, &ts) {
                if lo > 0 {
                    return tru();
                }
                if hi <= 0 {
                    return fls();
                }
                // normalise: move everything to  x < c  when single term
                if ts.len() == 1 && (na.op == Op::Lin || nb.op == Op::Lin) {
                    let (t, k) = ts[0];
                    let c = c2 - c1;
                    let wt = width(t);
                    // c + k*t > 0
                    if k > 0 {
                        // t > -c/k  <=> t >= floor(-c/k)+1
                        let m = (-c).div_euclid(k) + 1;
                        return not(ult(t, con(m as u128, wt)));
                    } else {
                        // t < c/(-k)  <=> t < ceil(c/-k)
                        let kk = -k;
                        let m = (c + kk - 1).div_euclid(kk);
                        return ult(t, con(m as u128, wt));
                    }
                }
            }
        }
    }
    if na.op == Op::ZExt && nb.op == Op::ZExt {
        let (wa, wb) = (width(na.a), width(nb.a));
        let m = wa.max(wb);
        return ult(zext(na.a, m), zext(nb.a, m));
    }
    if na.op == Op::ZExt && nb.op == Op::Const && nb.k <= mask(width(na.a)) {
        return ult(na.a, con(nb.k, width(na.a)));
    }
    if nb.op == Op::ZExt && na.op == Op::Const && na.k <= mask(width(nb.a)) {
        return ult(con(na.k, width(nb.a)), nb.a);
    }
    // constants go to one side, unless the sum can wrap
    for (s, k, left) in [(na, nb, true), (nb, na, false)] {
        if s.op == Op::Lin && k.op == Op::Const {
            let l = ar().lins[s.k as usize].clone();
            if l.c0 != 0 && k.k >= l.c0 {
                let base = mk_lin(0, l.ts.clone(), w);
                if int_lin(base).is_some() && rng(base).1 <= mask(w) - l.c0 {
                    let k = con(k.k - l.c0, w);
                    return if left { ult(base, k) } else { ult(k, base) };
                }
            }
        }
    }
    if na.op == Op::Ite && nb.op == Op::Const {
        if let (Some(_), Some(_)) = (cval(na.b), cval(na.c)) {
            return ite(na.a, ult(na.b, b), ult(na.c, b));
        }
    }
    mk(Op::Ult, 1, a, b, 0, 0, (0, 1))
}
pub fn ule(a: T, b: T) -> T {
    not(ult(b, a))
}
pub fn slt(a: T, b: T) -> T {
    if a == b {
        return fls();
    }
    let w = width(a);
    let half = 1u128 << (w - 1);
    let (ra, rb) = (rng(a), rng(b));
    let an = ra.0 >= half;
    let ap = ra.1 < half;
    let bn = rb.0 >= half;
    let bp = rb.1 < half;
    if an && bp {
        return tru();
    }
    if ap && bn {
        return fls();
    }
    if ap && bp || an && bn {
        return ult(a, b);
    }
    mk(Op::Slt, 1, a, b, 0, 0, (0, 1))
}
pub fn sle(a: T, b: T) -> T {
    not(slt(b, a))
}
pub fn fbin(kind: u8, a: T, b: T) -> T {
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return con(fbin_c(kind, x, y, w), w);
    }
    mk(Op::FBin, w, a, b, 0, kind as u128, (0, mask(w)))
}
pub fn fbin_c(kind: u8, x: u128, y: u128, w: u16) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        (match kind {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            3 => x / y,
            _ => x % y,
        })
        .to_bits() as u128
    } else {
        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match kind {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            3 => x / y,
            _ => x % y,
        })
        .to_bits() as u128
    }
}
pub fn fconv_c(kind: u8, x: u128, wi: u16, wo: u16) -> u128 {
    match kind {
        0 => {
            if wo == 64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        1 => {
            let v = sgn(x, wi);
            if wo == 64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        }
        2 => {
            let f = if wi == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
            let m = mask(wo);
            let v = f as u128;
            v.min(m)
        }
        _ => {
            let f = if wi == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
            let v = f as i128;
            let hi = (mask(wo) >> 1) as i128;
            (v.clamp(-hi - 1, hi)) as u128 & mask(wo)
        }
    }
}
pub fn fconv(kind: u8, a: T, wo: u16) -> T {
    if let Some(x) = cval(a) {
        return con(fconv_c(kind, x, width(a), wo), wo);
    }
    mk(Op::FConv, wo, a, 0, 0, kind as u128, (0, mask(wo)))
}
pub fn fcmp_c(kind: u8, x: u128, y: u128, w: u16) -> bool {
    let (x, y) = if w == 64 {
        (f64::from_bits(x as u64), f64::from_bits(y as u64))
    } else {
        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
    };
    match kind {
        0 => x < y,
        1 => x <= y,
        _ => x == y,
    }
}
pub fn fcmp(kind: u8, a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return con(fcmp_c(kind, x, y, width(a)) as u128, 1);
    }
    mk(Op::FCmp, 1, a, b, 0, kind as u128, (0, 1))
}

// ---------- models ----------
#[derive(Default)]
pub struct Model {
    pub vars: HashMap<u32, u128>,
    pub arrs: HashMap<(u32, u64), u8>,
    memo: RefCell<HashMap<T, u128>>,
}
impl Model {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn eval(&self, t: T) -> u128 {
        let n = node(t);
        if n.op == Op::Const {
            return n.k;
        }
        if let Some(&v) = self.memo.borrow().get(&t) {
            return v;
        }
        let m = mask(n.w);
        let e = |x: T| self.eval(x);
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => {
                let vi = &ar().vars[n.k as usize];
                match self.vars.get(&(n.k as u32)) {
                    Some(&v) => v,
                    None => vi.lo,
                }
            }
            Op::Sel => {
                let i = e(n.a) as u64;
                self.arrs.get(&(n.k as u32, i)).copied().unwrap_or(0) as u128
            }
            Op::Lin => {
                let l = ar().lins[n.k as usize].clone();
                let mut s = l.c0;
                for &(t, k) in &l.ts {
                    s = s.wrapping_add(k.wrapping_mul(e(t)));
                }
                s & m
            }
            Op::Mul => e(n.a).wrapping_mul(e(n.b)) & m,
            Op::UDiv => {
                let d = e(n.b);
                if d == 0 {
                    m
                } else {
                    e(n.a) / d
                }
            }
            Op::URem => {
                let d = e(n.b);
                if d == 0 {
                    e(n.a)
                } else {
                    e(n.a) % d
                }
            }
            Op::SDiv => {
                let (x, y) = (sgn(e(n.a), n.w), sgn(e(n.b), n.w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128 & m
                }
            }
            Op::SRem => {
                let (x, y) = (sgn(e(n.a), n.w), sgn(e(n.b), n.w));
                if y == 0 {
                    x as u128 & m
                } else {
                    x.wrapping_rem(y) as u128 & m
                }
            }
            Op::And => e(n.a) & e(n.b),
            Op::Or => e(n.a) | e(n.b),
            Op::Xor => e(n.a) ^ e(n.b),
            Op::Not => e(n.a) ^ 1,
            Op::Shl => {
                let s = e(n.b);
                if s >= n.w as u128 {
                    0
                } else {
                    e(n.a) << s & m
                }
            }
            Op::LShr => {
                let s = e(n.b);
                if s >= n.w as u128 {
                    0
                } else {
                    e(n.a) >> s
                }
            }
            Op::AShr => {
                let s = e(n.b).min(n.w as u128 - 1);
                (sgn(e(n.a), n.w) >> s) as u128 & m
            }
            Op::Concat => e(n.a) << width(n.b) | e(n.b),
            Op::Extract => e(n.a) >> n.k & m,
            Op::ZExt => e(n.a),
            Op::SExt => sgn(e(n.a), width(n.a)) as u128 & m,
            Op::Ite => {
                if e(n.a) == 1 {
                    e(n.b)
                } else {
                    e(n.c)
                }
            }
            Op::Eq => (e(n.a) == e(n.b)) as u128,
            Op::Ult => (e(n.a) < e(n.b)) as u128,
            Op::Slt => {
                let w = width(n.a);
                (sgn(e(n.a), w) < sgn(e(n.b), w)) as u128
            }
            Op::FBin => fbin_c(n.k as u8, e(n.a), e(n.b), n.w),
            Op::FConv => fconv_c(n.k as u8, e(n.a), width(n.a), n.w),
            Op::FCmp => fcmp_c(n.k as u8, e(n.a), e(n.b), width(n.a)) as u128,
        };
        self.memo.borrow_mut().insert(t, v);
        v
    }
}

/// variables (id) and arrays (id | 1<<31) a term depends on, sorted
pub fn deps(t: T) -> Rc<Vec<u32>> {
    if let Some(d) = ar().deps.borrow().get(&t) {
        return d.clone();
    }
    let n = node(t);
    let mut out: Vec<u32> = vec![];
    match n.op {
        Op::Const => {}
        Op::Var => out.push(n.k as u32),
        Op::Sel => {
            out.extend(deps(n.a).iter());
            out.push(n.k as u32 | 1 << 31);
        }
        Op::Lin => {
            let l = ar().lins[n.k as usize].clone();
            for &(t, _) in &l.ts {
                out.extend(deps(t).iter());
            }
        }
        _ => {
            for c in [n.a, n.b, n.c] {
                if c != 0 {
                    out.extend(deps(c).iter());
                }
            }
        }
    }
    out.sort_unstable();
    out.dedup();
    let r = Rc::new(out);
    ar().deps.borrow_mut().insert(t, r.clone());
    r
}

pub fn show(t: T) -> String {
    show_d(t, 6)
}
pub fn show_d(t: T, d: u32) -> String {
    let n = node(t);
    if d == 0 {
        return format!("#{}", t);
    }
    let s = |x: T| show_d(x, d - 1);
    match n.op {
        Op::Const => format!("0x{:x}", n.k),
        Op::Var => format!("{}#{}", ar().vars[n.k as usize].name, n.k),
        Op::Sel => format!("{}[{}]", ar().arrs[n.k as usize], s(n.a)),
        Op::Lin => {
            let l = ar().lins[n.k as usize].clone();
            let mut o = format!("(0x{:x}", l.c0);
            for &(t, k) in &l.ts {
                o += &format!(" + {}*{}", sgn(k, n.w), s(t));
            }
            o + ")"
        }
        Op::Extract => format!("{}[{}+:{}]", s(n.a), n.k, n.w),
        Op::ZExt => format!("zx{}({})", n.w, s(n.a)),
        Op::Not => format!("!{}", s(n.a)),
        Op::Ite => format!("ite({},{},{})", s(n.a), s(n.b), s(n.c)),
        _ => format!(
            "{:?}({},{})",
            n.op,
            s(n.a),
            if n.b != 0 { s(n.b) } else { String::new() }
        ),
    }
}

/// The possible values of t when syntax alone shows there are at most `max` of them.
pub fn few(t: T, max: usize) -> Option<Vec<u128>> {
    let n = node(t);
    let m = mask(n.w);
    let fin = |mut v: Vec<u128>| {
        v.sort_unstable();
        v.dedup();
        if v.len() <= max {
            Some(v)
        } else {
            None
        }
    };
    if n.w == 1 && n.op != Op::Const {
        return Some(vec![0, 1]);
    }
    match n.op {
        Op::Const => Some(vec![n.k]),
        Op::Ite => {
            let mut a = few(n.b, max)?;
            a.extend(few(n.c, max)?);
            fin(a)
        }
        Op::Lin => {
            let l = ar().lins[n.k as usize].clone();
            let mut acc = vec![l.c0 & m];
            for &(x, k) in &l.ts {
                let f = few(x, max)?;
                let mut nx = vec![];
                for a in &acc {
                    for y in &f {
                        nx.push(a.wrapping_add(k.wrapping_mul(*y)) & m);
                    }
                }
                acc = fin(nx)?;
            }
            Some(acc)
        }
        Op::ZExt => few(n.a, max),
        Op::SExt => {
            let wi = width(n.a);
            Some(few(n.a, max)?.into_iter().map(|v| if v >> (wi - 1) & 1 == 1 { (v | !mask(wi)) & m } else { v }).collect())
        }
        Op::Extract => fin(few(n.a, max)?.into_iter().map(|v| (v >> n.k) & m).collect()),
        Op::Shl => {
            let k = cval(n.b)?;
            fin(few(n.a, max)?.into_iter().map(|v| if k < 128 { (v << k) & m } else { 0 }).collect())
        }
        Op::LShr => {
            let k = cval(n.b)?;
            fin(few(n.a, max)?.into_iter().map(|v| if k < 128 { v >> k } else { 0 }).collect())
        }
        Op::And => {
            let k = cval(n.b).or(cval(n.a))?;
            let o = if cval(n.b).is_some() { n.a } else { n.b };
            fin(few(o, max)?.into_iter().map(|v| v & k).collect())
        }
        _ => None,
    }
}
