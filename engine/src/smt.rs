//! Translation of terms to Z3 (C API) and the query interface.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, range: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("symex: z3 error code {code}");
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub struct Smt {
    ctx: P,
    solver: P,
    quick: P,
    recent: Vec<Rc<Model>>,
    memo: HashMap<T, P>,      // bit-vector view
    bmemo: HashMap<T, P>,     // boolean view of width-1 terms
    arrf: HashMap<u32, P>,
    divs: HashMap<(T, u128), (P, P, P)>, // (quotient, remainder, axiom)
    axioms_of: HashMap<T, Rc<Vec<(T, u128)>>>, // division nodes below a term
    sels_of: HashMap<T, Rc<Vec<T>>>,
    cache: HashMap<Vec<T>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub unknowns: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            // plain (non-rc) context: asts live as long as the context
            for (k, v) in [("smt.random_seed", "1"), ("sat.random_seed", "1")] {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_global_param_set(k.as_ptr(), v.as_ptr());
            }
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let solver = Z3_mk_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let s = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, s.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            // a second, light-weight solver for the many small queries
            let quick = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, quick);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, s.as_ptr()), 400.min(timeout_ms));
            Z3_solver_set_params(ctx, quick, p);
            Smt {
                ctx,
                solver,
                quick,
                recent: vec![],
                memo: HashMap::new(),
                bmemo: HashMap::new(),
                arrf: HashMap::new(),
                divs: HashMap::new(),
                axioms_of: HashMap::new(),
                sels_of: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                model_hits: 0,
                unknowns: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
            }
        }
    }
    fn bv(&self, w: u16) -> P {
        unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, self.bv(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, s.as_ptr(), self.bv(w))
            }
        }
    }
    fn cst(&self, name: &str, w: u16) -> P {
        unsafe {
            let s = CString::new(name).unwrap();
            Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), self.bv(w))
        }
    }
    /// x / c and x % c through defining variables at the width the interval needs.
    fn div(&mut self, x: T, c: u128) -> (P, P, P) {
        if let Some(d) = self.divs.get(&(x, c)) {
            return *d;
        }
        let w = width(x);
        let hi = rng(x).1;
        let need = (128 - hi.leading_zeros() as u16).max(128 - c.leading_zeros() as u16).max(1);
        let k = (need + 1).min(w.max(need));
        let zx = self.tr(x);
        unsafe {
            let xs = if k < w {
                Z3_mk_extract(self.ctx, (k - 1) as c_uint, 0, zx)
            } else {
                zx
            };
            let k = k.min(w);
            let q = self.cst(&format!("q!{}!{}", x, c), k);
            let r = self.cst(&format!("r!{}!{}", x, c), k);
            let sum = Z3_mk_bvadd(self.ctx, Z3_mk_bvmul(self.ctx, q, self.num(c, k)), r);
            let parts = [
                Z3_mk_eq(self.ctx, xs, sum),
                Z3_mk_bvult(self.ctx, r, self.num(c, k)),
                Z3_mk_bvule(self.ctx, q, self.num(hi / c, k)),
            ];
            let mut ax = Z3_mk_and(self.ctx, 3, parts.as_ptr());
            if k == need {
                // no spare bit: the sum must not wrap
                let p = [ax, Z3_mk_bvule(self.ctx, r, sum)];
                ax = Z3_mk_and(self.ctx, 2, p.as_ptr());
            }
            let (q, r) = if k < w {
                (
                    Z3_mk_zero_ext(self.ctx, (w - k) as c_uint, q),
                    Z3_mk_zero_ext(self.ctx, (w - k) as c_uint, r),
                )
            } else {
                (q, r)
            };
            self.divs.insert((x, c), (q, r, ax));
            (q, r, ax)
        }
    }
    fn fsort(&self, w: u16) -> P {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort_double(self.ctx)
            } else {
                Z3_mk_fpa_sort_single(self.ctx)
            }
        }
    }
    fn fp(&mut self, t: T) -> P {
        let s = self.fsort(width(t));
        let b = self.tr(t);
        unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, b, s) }
    }
    /// boolean translation of a width-1 term
    pub fn trb(&mut self, t: T) -> P {
        if let Some(&p) = self.bmemo.get(&t) {
            return p;
        }
        let n = node(t);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.trb(n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let v = [self.trb(n.a), self.trb(n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.trb(n.a), self.trb(n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Ite => {
                    let (x, y, z) = (self.trb(n.a), self.trb(n.b), self.trb(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq => {
                    if width(n.a) == 1 {
                        let (x, y) = (self.trb(n.a), self.trb(n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.tr(n.a), self.tr(n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::FCmp => {
                    let (x, y) = (self.fp(n.a), self.fp(n.b));
                    match n.k {
                        0 => Z3_mk_fpa_lt(c, x, y),
                        1 => Z3_mk_fpa_leq(c, x, y),
                        _ => Z3_mk_fpa_eq(c, x, y),
                    }
                }
                _ => {
                    let b = self.tr(t);
                    Z3_mk_eq(c, b, self.num(1, 1))
                }
            }
        };
        self.bmemo.insert(t, p);
        p
    }
    pub fn tr(&mut self, t: T) -> P {
        if let Some(&p) = self.memo.get(&t) {
            return p;
        }
        let n = node(t);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let vi = &ar().vars[n.k as usize];
                    // declare at the width the interval needs
                    let hi = vi.hi;
                    let k = (128 - hi.leading_zeros() as u16).max(1);
                    if k < n.w {
                        Z3_mk_zero_ext(c, (n.w - k) as c_uint, self.cst(&format!("v{}", n.k), k))
                    } else {
                        self.cst(&format!("v{}", n.k), n.w)
                    }
                }
                Op::Sel => {
                    let f = match self.arrf.get(&(n.k as u32)) {
                        Some(&f) => f,
                        None => {
                            let s = CString::new(format!("a{}", n.k)).unwrap();
                            let dom = [self.bv(64)];
                            let f = Z3_mk_func_decl(
                                c,
                                Z3_mk_string_symbol(c, s.as_ptr()),
                                1,
                                dom.as_ptr(),
                                self.bv(8),
                            );
                            self.arrf.insert(n.k as u32, f);
                            f
                        }
                    };
                    let a = [self.tr(n.a)];
                    Z3_mk_app(c, f, 1, a.as_ptr())
                }
                Op::Lin => {
                    let l = ar().lins[n.k as usize].clone();
                    let mut acc: Option<P> = if l.c0 != 0 { Some(self.num(l.c0, n.w)) } else { None };
                    for &(t, k) in &l.ts {
                        let x = self.tr(t);
                        let x = if k == 1 { x } else { Z3_mk_bvmul(c, x, self.num(k, n.w)) };
                        acc = Some(match acc {
                            None => x,
                            Some(a) => Z3_mk_bvadd(c, a, x),
                        });
                    }
                    acc.unwrap()
                }
                Op::UDiv | Op::URem if cval(n.b).map_or(false, |v| v != 0) => {
                    let (q, r, _) = self.div(n.a, cval(n.b).unwrap());
                    if n.op == Op::UDiv {
                        q
                    } else {
                        r
                    }
                }
                Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr
                | Op::AShr | Op::Concat => {
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    match n.op {
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => Z3_mk_concat(c, x, y),
                    }
                }
                Op::And | Op::Or | Op::Xor if n.w > 1 => {
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    match n.op {
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        _ => Z3_mk_bvxor(c, x, y),
                    }
                }
                Op::Extract => {
                    let x = self.tr(n.a);
                    Z3_mk_extract(c, (n.k as u16 + n.w - 1) as c_uint, n.k as c_uint, x)
                }
                Op::ZExt => {
                    let wi = width(n.a);
                    let x = self.tr(n.a);
                    Z3_mk_zero_ext(c, (n.w - wi) as c_uint, x)
                }
                Op::SExt => {
                    let wi = width(n.a);
                    let x = self.tr(n.a);
                    Z3_mk_sign_ext(c, (n.w - wi) as c_uint, x)
                }
                Op::Ite if n.w > 1 => {
                    let (x, y, z) = (self.trb(n.a), self.tr(n.b), self.tr(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::FBin => {
                    let (x, y) = (self.fp(n.a), self.fp(n.b));
                    let r = Z3_mk_fpa_rne(c);
                    let f = match n.k {
                        0 => Z3_mk_fpa_add(c, r, x, y),
                        1 => Z3_mk_fpa_sub(c, r, x, y),
                        2 => Z3_mk_fpa_mul(c, r, x, y),
                        _ => Z3_mk_fpa_div(c, r, x, y),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FConv => match n.k {
                    0 | 1 => {
                        let x = self.tr(n.a);
                        let s = self.fsort(n.w);
                        let r = Z3_mk_fpa_rne(c);
                        let f = if n.k == 0 {
                            Z3_mk_fpa_to_fp_unsigned(c, r, x, s)
                        } else {
                            Z3_mk_fpa_to_fp_signed(c, r, x, s)
                        };
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    k => {
                        // saturating conversion
                        let wi = width(n.a);
                        let f = self.fp(n.a);
                        let s = self.fsort(wi);
                        let r = Z3_mk_fpa_rtz(c);
                        let (lo, hi): (u128, u128) = if k == 2 {
                            (0, mask(n.w))
                        } else {
                            (1u128 << (n.w - 1), mask(n.w) >> 1)
                        };
                        let lov = self.num(lo, n.w);
                        let hiv = self.num(hi, n.w);
                        let rne = Z3_mk_fpa_rne(c);
                        let (lof, hif, conv) = if k == 2 {
                            (
                                Z3_mk_fpa_to_fp_unsigned(c, rne, lov, s),
                                Z3_mk_fpa_to_fp_unsigned(c, rne, hiv, s),
                                Z3_mk_fpa_to_ubv(c, r, f, n.w as c_uint),
                            )
                        } else {
                            (
                                Z3_mk_fpa_to_fp_signed(c, rne, lov, s),
                                Z3_mk_fpa_to_fp_signed(c, rne, hiv, s),
                                Z3_mk_fpa_to_sbv(c, r, f, n.w as c_uint),
                            )
                        };
                        let x = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hif, f), hiv, conv);
                        let x = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, lof), lov, x);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), self.num(0, n.w), x)
                    }
                },
                _ => {
                    // width-1 boolean-ish nodes
                    let b = self.trb(t);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
            }
        };
        self.memo.insert(t, p);
        p
    }

    fn walk_axioms(&mut self, t: T) -> Rc<Vec<(T, u128)>> {
        if let Some(r) = self.axioms_of.get(&t) {
            return r.clone();
        }
        let n = node(t);
        let mut out: Vec<(T, u128)> = vec![];
        for c in children(t) {
            out.extend(self.walk_axioms(c).iter());
        }
        if matches!(n.op, Op::UDiv | Op::URem) {
            if let Some(k) = cval(n.b) {
                if k != 0 {
                    out.push((n.a, k));
                }
            }
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.axioms_of.insert(t, r.clone());
        r
    }
    fn walk_sels(&mut self, t: T) -> Rc<Vec<T>> {
        if let Some(r) = self.sels_of.get(&t) {
            return r.clone();
        }
        let n = node(t);
        let mut out: Vec<T> = vec![];
        for c in children(t) {
            out.extend(self.walk_sels(c).iter());
        }
        if n.op == Op::Sel {
            out.push(t);
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.sels_of.insert(t, r.clone());
        r
    }

    /// Constraints of `pc` connected to the query's variables.
    pub fn slice(pc: &[T], q: T) -> Vec<T> {
        let mut seen: HashSet<u32> = deps(q).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let d = deps(c);
                if d.iter().any(|x| seen.contains(x)) {
                    used[i] = true;
                    ch = true;
                    out.push(c);
                    seen.extend(d.iter());
                }
            }
            if !ch {
                break;
            }
        }
        out
    }

    /// Is pc /\ q satisfiable?  The model covers only the sliced part; `base` fills in the rest.
    pub fn check(&mut self, pc: &[T], q: T, base: Option<&Model>) -> Res {
        if cval(q) == Some(0) {
            return Res::Unsat;
        }
        let mut cs = Self::slice(pc, q);
        cs.push(q);
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.cache_hits += 1;
            return match r {
                Res::Sat(m) => Res::Sat(Rc::new(merge(base, m))),
                x => x.clone(),
            };
        }
        // a model found recently may already satisfy the query
        let mut hit = None;
        for (i, m) in self.recent.iter().enumerate().rev() {
            if cs.iter().rev().all(|t| m.eval(*t) == 1) {
                hit = Some(i);
                break;
            }
        }
        let r = match hit {
            Some(i) => {
                self.model_hits += 1;
                let m = self.recent.remove(i);
                self.recent.push(m.clone());
                // spell out every variable and cell the query depends on
                let mut x = Model::new();
                for &t in &cs {
                    for &d in deps(t).iter().filter(|x| *x >> 31 == 0) {
                        x.vars.insert(d, m.vars.get(&d).copied().unwrap_or(ar().vars[d as usize].lo));
                    }
                    for &c in self.walk_sels(t).iter() {
                        let n = node(c);
                        x.arrs.insert((n.k as u32, m.eval(n.a) as u64), m.eval(c) as u8);
                    }
                }
                debug_assert!(cs.iter().all(|t| x.eval(*t) == 1));
                Res::Sat(Rc::new(x))
            }
            None => self.solve(&cs),
        };
        if let (Res::Sat(m), None) = (&r, hit) {
            if self.recent.len() >= 24 {
                self.recent.remove(0);
            }
            self.recent.push(m.clone());
        }
        self.cache.insert(cs, r.clone());
        match r {
            Res::Sat(m) => Res::Sat(Rc::new(merge(base, &m))),
            x => x,
        }
    }

    fn solve(&mut self, cs: &[T]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let mut vars: HashSet<u32> = HashSet::new();
        let mut axs: HashSet<(T, u128)> = HashSet::new();
        let mut sels: HashSet<T> = HashSet::new();
        unsafe {
            let mut asserts: Vec<P> = vec![];
            for &t in cs {
                let p = self.trb(t);
                asserts.push(p);
                vars.extend(deps(t).iter().filter(|x| *x >> 31 == 0));
                axs.extend(self.walk_axioms(t).iter());
                sels.extend(self.walk_sels(t).iter());
            }
            let mut axs: Vec<_> = axs.into_iter().collect();
            axs.sort_unstable();
            for (x, c) in axs {
                let (_, _, ax) = self.div(x, c);
                asserts.push(ax);
            }
            let mut vs: Vec<u32> = vars.into_iter().collect();
            vs.sort_unstable();
            for &v in &vs {
                let vi = ar().vars[v as usize].clone();
                let k = (128 - vi.hi.leading_zeros() as u16).max(1);
                let c = self.cst(&format!("v{}", v), k.min(vi.w));
                let k = k.min(vi.w);
                if vi.lo > 0 {
                    asserts.push(Z3_mk_bvule(self.ctx, self.num(vi.lo, k), c));
                }
                if vi.hi < mask(k) {
                    asserts.push(Z3_mk_bvule(self.ctx, c, self.num(vi.hi, k)));
                }
            }
            let mut used = self.quick;
            let mut r = 0;
            for sol in if quick_first() { vec![self.quick, self.solver] } else { vec![self.solver] } {
                used = sol;
                Z3_solver_reset(self.ctx, sol);
                for a in &asserts {
                    Z3_solver_assert(self.ctx, sol, *a);
                }
                r = Z3_solver_check(self.ctx, sol);
                if r != 0 {
                    break;
                }
            }
            let res = match r {
                1 => {
                    let zm = Z3_solver_get_model(self.ctx, used);
                    let mut m = Model::new();
                    for &v in &vs {
                        let vi = &ar().vars[v as usize];
                        let k = (128 - vi.hi.leading_zeros() as u16).max(1).min(vi.w);
                        let c = self.cst(&format!("v{}", v), k);
                        let val = self.ev(zm, c);
                        m.vars.insert(v, val);
                    }
                    for s in sels {
                        let n = node(s);
                        let (zi, zs) = (self.tr(n.a), self.tr(s));
                        let i = self.ev(zm, zi) as u64;
                        let v = self.ev(zm, zs) as u8;
                        m.arrs.insert((n.k as u32, i), v);
                    }
                    // trust but verify: the model must satisfy the constraints under our semantics
                    for &t in cs {
                        if m.eval(t) != 1 {
                            eprintln!("symex: internal: model does not satisfy {}", show(t));
                            std::process::exit(3);
                        }
                    }
                    Res::Sat(Rc::new(m))
                }
                -1 => Res::Unsat,
                _ => {
                    self.unknowns += 1;
                    if std::env::var("SYMEX_DUMP").is_ok() {
                        let s = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver));
                        eprintln!("UNKNOWN QUERY:\n{}", s.to_string_lossy());
                    }
                    Res::Unknown
                }
            };
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            if std::env::var("SYMEX_SLOW").map_or(false, |v| dt > v.parse().unwrap_or(2.0)) {
                eprintln!("SLOW {:.1}s:", dt);
                for &t in cs {
                    eprintln!("   {}", show_d(t, 12));
                }
            }
            res
        }
    }
    unsafe fn ev(&self, m: P, t: P) -> u128 {
        let mut v: P = std::ptr::null_mut();
        if !Z3_model_eval(self.ctx, m, t, true, &mut v) {
            return 0;
        }
        let mut u = 0u64;
        if Z3_get_numeral_uint64(self.ctx, v, &mut u) {
            return u as u128;
        }
        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, v));
        s.to_str().unwrap_or("0").parse().unwrap_or(0)
    }
}

pub fn children(t: T) -> Vec<T> {
    let n = node(t);
    match n.op {
        Op::Const | Op::Var => vec![],
        Op::Lin => ar().lins[n.k as usize].ts.iter().map(|x| x.0).collect(),
        _ => [n.a, n.b, n.c].into_iter().filter(|&x| x != 0).collect(),
    }
}

fn merge(base: Option<&Model>, m: &Model) -> Model {
    let mut r = Model::new();
    if let Some(b) = base {
        r.vars = b.vars.clone();
        r.arrs = b.arrs.clone();
        // arrays mentioned by m are re-solved completely: drop stale cells
        let touched: HashSet<u32> = m.arrs.keys().map(|k| k.0).collect();
        if !touched.is_empty() {
            r.arrs.retain(|k, _| !touched.contains(&k.0));
        }
    }
    for (k, v) in &m.vars {
        r.vars.insert(*k, *v);
    }
    for (k, v) in &m.arrs {
        r.arrs.insert(*k, *v);
    }
    r
}

fn quick_first() -> bool {
    std::env::var("SYMEX_NOQUICK").is_err()
}
