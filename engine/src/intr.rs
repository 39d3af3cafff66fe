//! Functions without a body: LLVM intrinsics, libc, and the harness interface (`sv_*`).
use crate::exec::*;
use crate::ir::*;
use crate::mem::{Content, Cell, Seg, K};
use crate::term::*;
use std::rc::Rc;

fn c64(v: u64) -> T {
    con(v as u128, 64)
}

/// readable form of a v0-mangled name: the sequence of identifiers in it
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate root: skip the disambiguator
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
            i += 1;
            continue;
        }
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 4 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            // back reference
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 4 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

pub fn classify(p: &Prog, f: u32) -> FnKind {
    let fun = &p.funcs[f as usize];
    let n = &fun.name;
    if n.starts_with("llvm.") {
        return FnKind::Llvm;
    }
    if fun.text.is_none() {
        return FnKind::Ext;
    }
    if n.contains("_4core9panicking") && (n.contains("5panic") || n.contains("panic_") || n.contains("assert_failed")) {
        return FnKind::Panic;
    }
    if n.contains("_3std9panicking11begin_panic") || n.contains("rust_begin_unwind") || n.contains("10rust_panic") {
        return FnKind::Panic;
    }
    if n.contains("handle_alloc_error") || n.contains("rust_oom") {
        return FnKind::AllocFail;
    }
    if n.contains("3std2io5stdio6_print") || n.contains("3std2io5stdio7_eprint") {
        return FnKind::RetVoid;
    }
    if n.contains("4core3fmt3num") && n.contains("3fmt") {
        let t = n.trim_end_matches(|c: char| c.is_ascii_digit() || c == '.');
        if t.ends_with("3fmt") {
            return FnKind::FmtNum;
        }
    }
    FnKind::Body
}

fn lanes(ex: &mut Ex, st: &mut State, a: &[V], f: &mut dyn FnMut(&mut Ex, &mut State, &[V]) -> X<V>) -> X<V> {
    // apply elementwise when the first argument is a vector
    if let V::Agg(x) = &a[0] {
        let n = x.len();
        let mut out = vec![];
        for i in 0..n {
            let e: Vec<V> = a
                .iter()
                .map(|v| match v {
                    V::Agg(y) => y[i].clone(),
                    v => v.clone(),
                })
                .collect();
            out.push(f(ex, st, &e)?);
        }
        return Ok(V::Agg(Rc::new(out)));
    }
    f(ex, st, a)
}

pub fn llvm(ex: &mut Ex, st: &mut State, f: u32, a: &[V], args: &[(Ty, O)], rt: &Ty) -> X<V> {
    let name = ex.p.funcs[f as usize].name.clone();
    let n = &name[5..];
    let pre = |s: &str| n.starts_with(s);
    if pre("memcpy.") || pre("memmove.") {
        ex.memcpy(st, &a[0], &a[1], &a[2])?;
        return Ok(V::Undef);
    }
    if pre("memset.") {
        ex.memset(st, &a[0], &a[1], &a[2])?;
        return Ok(V::Undef);
    }
    if pre("lifetime.")
        || pre("assume")
        || pre("experimental.noalias")
        || pre("dbg.")
        || pre("prefetch")
        || pre("x86.sse2.pause")
        || pre("donothing")
        || pre("sideeffect")
        || pre("invariant.")
    {
        return Ok(V::Undef);
    }
    if pre("threadlocal.address") || pre("expect.") || pre("ssa.copy") || pre("launder.") || pre("strip.") {
        return Ok(a[0].clone());
    }
    if pre("is.constant") {
        return Ok(V::C(0));
    }
    if pre("trap") || pre("ubsantrap") || pre("debugtrap") {
        return Err(Stop::Fail("panic".into(), format!("trap in {}", ex.panic_site(st))));
    }
    if args.is_empty() {
        return Err(Stop::Engine(format!("intrinsic {name}")));
    }
    let ety = match &args[0].0 {
        Ty::Vec(_, e) => (**e).clone(),
        t => t.clone(),
    };
    let w = if matches!(ety, Ty::Struct(..)) { 64 } else { ety.bits() };
    if pre("vector.reduce.") {
        let V::Agg(x) = &a[0] else { return Ok(V::Undef) };
        let op = n["vector.reduce.".len()..].split('.').next().unwrap();
        let mut acc = x[0].t(w);
        for v in &x[1..] {
            let t = v.t(w);
            acc = match op {
                "or" => or(acc, t),
                "and" => and(acc, t),
                "xor" => xor(acc, t),
                "add" => add(acc, t),
                "mul" => mul(acc, t),
                "umax" => umax(acc, t),
                "umin" => umin(acc, t),
                "smax" => ite(slt(acc, t), t, acc),
                "smin" => ite(slt(t, acc), t, acc),
                _ => return Err(Stop::Engine(format!("intrinsic {name}"))),
            };
        }
        return Ok(V::from_t(acc));
    }
    if n.contains(".with.overflow.") {
        let op = n.split('.').next().unwrap().to_string();
        if a.iter().any(|v| matches!(v, V::Undef)) {
            return Ok(V::Agg(Rc::new(vec![V::Undef, V::Undef])));
        }
        let (x, y) = (a[0].t(w), a[1].t(w));
        let (r, o) = match op.as_str() {
            "uadd" => {
                let r = add(x, y);
                (r, ult(r, x))
            }
            "usub" => (sub(x, y), ult(x, y)),
            "umul" => {
                let r = mul(x, y);
                let (_, xh) = rng(x);
                let (_, yh) = rng(y);
                let o = match xh.checked_mul(yh) {
                    Some(p) if p <= mask(w) => fls(),
                    _ => {
                        if w <= 64 {
                            if let Some(k) = cval(y).filter(|k| *k != 0) {
                                ult(con(mask(w) / k, w), x)
                            } else if let Some(k) = cval(x).filter(|k| *k != 0) {
                                ult(con(mask(w) / k, w), y)
                            } else {
                                let p = mul(zext(x, 2 * w), zext(y, 2 * w));
                                ne(extract(p, w, w), con(0, w))
                            }
                        } else {
                            return Err(Stop::Engine(format!("wide {name}")));
                        }
                    }
                };
                (r, o)
            }
            "sadd" | "ssub" => {
                let wx = sext(x, w + 1);
                let wy = sext(y, w + 1);
                let p = if op == "sadd" { add(wx, wy) } else { sub(wx, wy) };
                let r = if op == "sadd" { add(x, y) } else { sub(x, y) };
                (r, ne(sext(r, w + 1), p))
            }
            "smul" => {
                if w > 64 {
                    return Err(Stop::Engine(format!("wide {name}")));
                }
                let p = mul(sext(x, 2 * w), sext(y, 2 * w));
                let r = mul(x, y);
                (r, ne(sext(r, 2 * w), p))
            }
            _ => return Err(Stop::Engine(format!("intrinsic {name}"))),
        };
        return Ok(V::Agg(Rc::new(vec![V::from_t(r), V::from_t(o)])));
    }
    let op = n.split('.').next().unwrap().to_string();
    let sat = n.contains(".sat.");
    let rw = match rt {
        Ty::Vec(_, e) => e.bits(),
        Ty::Void => 64,
        t => t.bits(),
    };
    lanes(ex, st, a, &mut |_, _, e| {
        if matches!(e[0], V::Undef) {
            return Ok(V::Undef);
        }
        let x = e[0].t(w);
        let y = || e[1].t(w);
        let r = match (op.as_str(), sat) {
            ("umin", _) => umin(x, y()),
            ("umax", _) => umax(x, y()),
            ("smin", _) => ite(slt(y(), x), y(), x),
            ("smax", _) => ite(slt(x, y()), y(), x),
            ("uadd", true) => {
                let r = add(x, y());
                ite(ult(r, x), con(mask(w), w), r)
            }
            ("usub", true) => ite(ult(x, y()), con(0, w), sub(x, y())),
            ("sadd", true) | ("ssub", true) => {
                let (p, q) = (sext(x, w + 1), sext(y(), w + 1));
                let r = if op == "sadd" { add(p, q) } else { sub(p, q) };
                let mx = con((1u128 << (w - 1)) - 1, w + 1);
                let mn = con((mask(w + 1) >> (w - 1)) << (w - 1), w + 1);
                let c = ite(slt(mx, r), mx, ite(slt(r, mn), mn, r));
                trunc(c, w)
            }
            ("abs", _) => ite(slt(x, con(0, w)), sub(con(0, w), x), x),
            ("ucmp", _) => ite(ult(x, y()), con(mask(rw), rw), ite(eq(x, y()), con(0, rw), con(1, rw))),
            ("scmp", _) => ite(slt(x, y()), con(mask(rw), rw), ite(eq(x, y()), con(0, rw), con(1, rw))),
            ("bswap", _) => {
                let nb = w / 8;
                let mut t = extract(x, 0, 8);
                for i in 1..nb {
                    t = concat(t, extract(x, i * 8, 8));
                }
                t
            }
            ("bitreverse", _) => {
                let mut t = extract(x, 0, 1);
                for i in 1..w {
                    t = concat(t, extract(x, i, 1));
                }
                t
            }
            ("ctpop", _) => {
                let mut t = zext(extract(x, 0, 1), w);
                for i in 1..w {
                    t = add(t, zext(extract(x, i, 1), w));
                }
                t
            }
            ("ctlz", _) => {
                let mut t = con(w as u128, w);
                for i in 0..w {
                    t = ite(eq(extract(x, i, 1), con(1, 1)), con((w - 1 - i) as u128, w), t);
                }
                t
            }
            ("cttz", _) => {
                let mut t = con(w as u128, w);
                for i in (0..w).rev() {
                    t = ite(eq(extract(x, i, 1), con(1, 1)), con(i as u128, w), t);
                }
                t
            }
            ("fshl", _) | ("fshr", _) => {
                let Some(k) = cval(e[2].t(w)) else {
                    return Err(Stop::Engine("symbolic funnel shift".into()));
                };
                let k = (k % w as u128) as u16;
                let cc = concat(x, y());
                if op == "fshl" {
                    extract(cc, w - k, w)
                } else {
                    extract(cc, k, w)
                }
            }
            ("fptoui", true) => fconv(2, x, rw),
            ("fptosi", true) => fconv(3, x, rw),
            ("floor" | "ceil" | "trunc" | "round" | "rint" | "sqrt" | "fabs", _) => {
                let Some(k) = cval(x) else { return Err(Stop::Engine(format!("symbolic {name}"))) };
                if w == 64 {
                    let v = f64::from_bits(k as u64);
                    let r = match op.as_str() {
                        "floor" => v.floor(),
                        "ceil" => v.ceil(),
                        "trunc" => v.trunc(),
                        "round" => v.round(),
                        "fabs" => v.abs(),
                        "sqrt" => v.sqrt(),
                        _ => v.round_ties_even(),
                    };
                    con(r.to_bits() as u128, 64)
                } else {
                    let v = f32::from_bits(k as u32);
                    let r = match op.as_str() {
                        "floor" => v.floor(),
                        "ceil" => v.ceil(),
                        "trunc" => v.trunc(),
                        "round" => v.round(),
                        "fabs" => v.abs(),
                        "sqrt" => v.sqrt(),
                        _ => v.round_ties_even(),
                    };
                    con(r.to_bits() as u128, 32)
                }
            }
            _ => return Err(Stop::Engine(format!("intrinsic {name}"))),
        };
        Ok(V::from_t(r))
    })
}

impl Ex {
    pub fn cstr_at(&mut self, st: &mut State, p: &V, n: &V) -> X<String> {
        let V::C(n) = n else { return Err(Stop::Engine("symbolic name length".into())) };
        let c = self.mem_cells(st, p, *n)?;
        Ok(c.iter().map(|x| x.b as char).collect())
    }
    /// NUL-terminated string; forks on symbolic bytes being NUL
    pub fn zstr(&mut self, st: &mut State, p: &V) -> X<Vec<Cell>> {
        let a = self.concretize(st, p, 64)?;
        let mut out = vec![];
        loop {
            let c = self.mem_cells(st, &V::C(a + out.len() as u64), 1)?[0];
            let z = if c.is_con() { c.b == 0 } else { self.decide(st, eq(c.term(), con(0, 8)))? };
            if z {
                return Ok(out);
            }
            out.push(c);
            if out.len() > 4096 {
                return Err(Stop::Engine("unterminated string".into()));
            }
        }
    }
    pub fn set_errno(&mut self, st: &mut State, e: u64) -> X<()> {
        let p = V::C(st.errno_addr);
        self.store_n(st, &p, 4, e)
    }
    /// check that [p,p+n) and [q,q+n) hold the same bytes
    fn check_eq(&mut self, st: &mut State, p: &V, q: &V, n: &V, msg: &str) -> X<()> {
        match n {
            V::C(0) => return self.check(st, &V::C(1), msg),
            V::C(n) => {
                let s1 = self.mem_segs(st, p, *n)?;
                let s2 = self.mem_segs(st, q, *n)?;
                if self.same_bytes(st, &s1, &s2)? {
                    return self.check(st, &V::C(1), msg);
                }
                let small = [p, q].iter().all(|v| {
                    let V::C(a) = v else { return false };
                    let o = st.objs.range(..=*a).next_back();
                    o.map_or(false, |(_, o)| matches!(o.content, Content::Flat(_)))
                });
                if *n <= 4 || small && *n <= 64 {
                    let a = self.mem_cells(st, p, *n)?;
                    let b = self.mem_cells(st, q, *n)?;
                    let mut c = tru();
                    for i in 0..*n as usize {
                        c = and(c, eq(a[i].term(), b[i].term()));
                    }
                    return self.check(st, &V::from_t(c), msg);
                }
                let i = self.idx_var(*n);
                let (b1, o1) = self.resolve(st, p, c64(*n))?;
                let (b2, o2) = self.resolve(st, q, c64(*n))?;
                let x = self.obj_cells(st, b1, add(o1, i), 1)?[0].term();
                let y = self.obj_cells(st, b2, add(o2, i), 1)?[0].term();
                self.check(st, &V::from_t(eq(x, y)), msg)
            }
            V::S(t) => {
                let t = *t;
                let hi = rng(t).1 as u64;
                if hi == 0 {
                    return Ok(());
                }
                let (b1, o1) = self.resolve(st, p, t)?;
                let (b2, o2) = self.resolve(st, q, t)?;
                let i = self.idx_var(hi);
                let x = self.obj_cells(st, b1, add(o1, i), 1)?[0].term();
                let y = self.obj_cells(st, b2, add(o2, i), 1)?[0].term();
                let c = or(not(ult(i, t)), eq(x, y));
                self.check(st, &V::from_t(c), msg)
            }
            _ => Err(Stop::Engine("check_eq length".into())),
        }
    }
    fn idx_var(&mut self, n: u64) -> T {
        let key = ("!idx".to_string(), 64, 0, n - 1);
        if let Some(t) = self.vars.get(&key) {
            return *t;
        }
        let t = var(&format!("!idx{n}"), 64, 0, (n - 1) as u128);
        self.vars.insert(key, t);
        t
    }
    fn bytes_cmp(&mut self, st: &mut State, p: &V, q: &V, n: &V, ordered: bool) -> X<V> {
        let n = self.concretize(st, n, 64)?;
        if n == 0 {
            return Ok(V::C(0));
        }
        let a = self.mem_cells(st, p, n)?;
        let b = self.mem_cells(st, q, n)?;
        if !ordered {
            let mut c = tru();
            for i in 0..n as usize {
                if a[i] == b[i] && !a[i].is_undef() {
                    continue;
                }
                c = and(c, eq(a[i].term(), b[i].term()));
                if cval(c) == Some(0) {
                    break;
                }
            }
            return Ok(V::from_t(ite(c, con(0, 32), con(1, 32))));
        }
        let mut r = con(0, 32);
        // a concrete difference ends the relevant prefix
        let mut m = n as usize;
        for i in 0..n as usize {
            if a[i].is_con() && b[i].is_con() && a[i].b != b[i].b {
                m = i + 1;
                break;
            }
        }
        for i in (0..m).rev() {
            if a[i] == b[i] {
                continue;
            }
            let (x, y) = (a[i].term(), b[i].term());
            r = ite(eq(x, y), r, ite(ult(x, y), con(0xffff_ffff, 32), con(1, 32)));
        }
        Ok(V::from_t(r))
    }
}

pub fn ext(ex: &mut Ex, st: &mut State, f: u32, a: &[V], args: &[(Ty, O)]) -> X<V> {
    let name = ex.p.funcs[f as usize].name.clone();
    let _ = args;
    Ok(match name.as_str() {
        "malloc" => ex.alloc(st, &a[0], false)?,
        "calloc" => {
            let n = match (&a[0], &a[1]) {
                (V::C(x), V::C(y)) => V::C(x.wrapping_mul(*y)),
                (x, y) => V::from_t(mul(x.t(64), y.t(64))),
            };
            ex.alloc(st, &n, true)?
        }
        "realloc" => ex.realloc(st, &a[0], &a[1])?,
        "aligned_alloc" => {
            align(st, &a[0]);
            ex.alloc(st, &a[1], false)?
        }
        "posix_memalign" => {
            align(st, &a[1]);
            let r = ex.alloc(st, &a[2], false)?;
            let V::C(b) = r else { return Err(Stop::Engine("posix_memalign".into())) };
            ex.store_n(st, &a[0], 8, b)?;
            V::C(if b == 0 { 12 } else { 0 })
        }
        "free" => {
            if let V::C(b) = &a[0] {
                if *b != 0 {
                    let Some(o) = st.objs.remove(b) else {
                        return Err(Stop::Fail("memory".into(), "free of invalid pointer".into()));
                    };
                    if let Some((_, live)) = &mut st.alloc_total {
                        *live -= o.ssize.map_or(o.size, |t| rng(t).0 as u64) as i64;
                    }
                }
            }
            V::Undef
        }
        "bcmp" => ex.bytes_cmp(st, &a[0], &a[1], &a[2], false)?,
        "memcmp" => ex.bytes_cmp(st, &a[0], &a[1], &a[2], true)?,
        "strlen" => {
            let z = ex.zstr(st, &a[0])?;
            V::C(z.len() as u64)
        }
        "memchr" => {
            let n = ex.concretize(st, &a[2], 64)?;
            let p = ex.concretize(st, &a[0], 64)?;
            let c = ex.mem_cells(st, &V::C(p), n)?;
            let k = trunc(a[1].t(32), 8);
            for i in 0..n {
                if ex.decide(st, eq(c[i as usize].term(), k))? {
                    return Ok(V::C(p + i));
                }
            }
            V::C(0)
        }
        "__errno_location" => V::C(st.errno_addr),
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" => {
            V::C(0)
        }
        "gettid" | "getpid" => V::C(7),
        "abort" => return Err(Stop::Fail("panic".into(), format!("abort in {}", ex.panic_site(st)))),
        "getrandom" => {
            let n = ex.concretize(st, &a[1], 64)?;
            ex.memset(st, &a[0], &V::C(0), &V::C(n))?;
            V::C(n)
        }
        "syscall" => {
            if let V::C(318) = a[0] {
                let n = ex.concretize(st, &a[2], 64)?;
                ex.memset(st, &a[1], &V::C(0), &V::C(n))?;
                V::C(n)
            } else {
                return Err(Stop::Engine(format!("syscall {:?}", a[0])));
            }
        }
        // ---- harness interface ----
        "sv_val" => {
            let nm = ex.cstr_at(st, &a[0], &a[1])?;
            let (V::C(w), V::C(lo), V::C(hi)) = (&a[2], &a[3], &a[4]) else {
                return Err(Stop::Engine("sv_val bounds".into()));
            };
            let k = st.counts.entry(nm.clone()).or_default();
            let nm = format!("{nm}#{k}");
            *k += 1;
            let w = *w as u16;
            let t = if lo == hi {
                con(*lo as u128, w)
            } else {
                *ex.vars
                    .entry((nm.clone(), w, *lo, *hi))
                    .or_insert_with(|| var(&nm, w, *lo as u128, *hi as u128))
            };
            st.inputs.push(Input::Val(nm, t));
            V::from_t(zext(t, 64))
        }
        "sv_arr" => {
            let nm = ex.cstr_at(st, &a[0], &a[1])?;
            let n = ex.concretize(st, &a[3], 64)?;
            let k = st.counts.get(&nm).copied().unwrap_or(0);
            let full = format!("{nm}#{k}");
            let id = match ex.arrs.get(&full) {
                Some(i) => *i,
                None => {
                    let i = ex.new_array(&full, ArrKind::Input);
                    ex.arrs.insert(full.clone(), i);
                    i
                }
            };
            ex.put_segs(st, &a[2], n, vec![(0, Seg { len: n, k: K::Arr(id, c64(0)) })])?;
            st.counts.insert(nm, k + 1);
            st.inputs.push(Input::Arr(full, id));
            V::Undef
        }
        "sv_assume" => {
            let c = ne(a[0].t(8), con(0, 8));
            ex.assume(st, c)?;
            V::Undef
        }
        "sv_check" => {
            let msg = ex.cstr_at(st, &a[1], &a[2])?;
            let c = V::from_t(ne(a[0].t(8), con(0, 8)));
            ex.check(st, &c, &msg)?;
            V::Undef
        }
        "sv_check_eq" => {
            let msg = ex.cstr_at(st, &a[3], &a[4])?;
            ex.check_eq(st, &a[0], &a[1], &a[2], &msg)?;
            V::Undef
        }
        "sv_reach" => {
            let msg = ex.cstr_at(st, &a[0], &a[1])?;
            st.reached.insert(msg);
            V::Undef
        }
        "sv_note" => {
            let msg = ex.cstr_at(st, &a[0], &a[1])?;
            let v = st.model.eval(a[2].t(64));
            let sy = matches!(a[2], V::S(_));
            st.trace.push(format!("{msg}={v}{}", if sy { "~" } else { "" }));
            V::Undef
        }
        "sv_concrete" => V::C(ex.concretize(st, &a[0], 64)?),
        "sv_alloc_limit" => {
            st.alloc_limit = match a[0] {
                V::C(0) => None,
                V::C(k) => Some(k),
                _ => return Err(Stop::Engine("sv_alloc_limit".into())),
            };
            V::Undef
        }
        "sv_alloc_total" => {
            st.alloc_total = match a[0] {
                V::C(0) => None,
                V::C(k) => Some((k as i64, 0)),
                _ => return Err(Stop::Engine("sv_alloc_total".into())),
            };
            V::Undef
        }
        "sv_format" => {
            st.format = true;
            V::Undef
        }
        "sv_digest_cap" => {
            st.digest_cap = match a[0] {
                V::C(0) => None,
                V::C(k) => Some(k),
                _ => return Err(Stop::Engine("sv_digest_cap".into())),
            };
            V::Undef
        }
        "sv_allow_panic" => {
            st.allow_panic = matches!(a[0], V::C(k) if k != 0);
            V::Undef
        }
        "sv_stop" => return Err(Stop::Done),
        "sv_sha1_new" => {
            st.sha.push(vec![]);
            V::C(st.sha.len() as u64 - 1)
        }
        "sv_sha1_update" => {
            let (V::C(h), n) = (&a[0], &a[2]) else { return Err(Stop::Engine("sha1 handle".into())) };
            let h = *h as usize;
            let n = ex.concretize(st, n, 64)?;
            if n > 0 {
                let mut segs = ex.mem_segs(st, &a[1], n)?;
                let l: u64 = st.sha[h].iter().map(|x| x.1.len).sum();
                for s in segs.iter_mut() {
                    s.0 += l;
                }
                st.sha[h].append(&mut segs);
            }
            V::Undef
        }
        "sv_sha1_clone" => {
            let V::C(h) = &a[0] else { return Err(Stop::Engine("sha1 handle".into())) };
            let s = st.sha[*h as usize].clone();
            st.sha.push(s);
            V::C(st.sha.len() as u64 - 1)
        }
        "sv_sha1_final" => {
            let V::C(h) = &a[0] else { return Err(Stop::Engine("sha1 handle".into())) };
            let segs = st.sha[*h as usize].clone();
            if let Some(cap) = &mut st.digest_cap {
                let n: u64 = segs.iter().map(|x| x.1.len).sum();
                if !matches!(n, 0x400 | 620 | 160 | 0x18000) {
                    if *cap == 0 {
                        return Err(Stop::Bound("signing attempts".into()));
                    }
                    *cap -= 1;
                }
            }
            let id = ex.digest(st, &segs)?;
            ex.put_segs(st, &a[1], 20, vec![(0, Seg { len: 20, k: K::Arr(id, c64(0)) })])?;
            V::Undef
        }
        "sv_cbc" => {
            let n = ex.concretize(st, &a[5], 64)?;
            if n == 0 {
                return Ok(V::Undef);
            }
            let key = ex.mem_segs(st, &a[1], 16)?;
            let iv = ex.mem_segs(st, &a[2], 16)?;
            let inp = ex.mem_segs(st, &a[3], n)?;
            let enc = matches!(a[0], V::C(k) if k != 0);
            let out = ex.cbc(st, enc, key, iv, inp, n)?;
            ex.put_segs(st, &a[4], n, out)?;
            V::Undef
        }
        _ => return Err(Stop::Engine(format!("external function {name}"))),
    })
}

fn align(st: &mut State, al: &V) {
    if let V::C(al) = al {
        if *al > 32 {
            st.next = (st.next + al - 1) & !(al - 1);
        }
    }
}
