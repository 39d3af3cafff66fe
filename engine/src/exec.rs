//! The symbolic executor: states, memory access, instruction semantics.
use crate::ir::*;
use crate::mem::{Canon, Cell, Content, MErr, Pc, Rope, Seg, FLAT_MAX, K, UNDEF};
use crate::smt::{Res, Smt};
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub ssize: Option<T>,
    pub content: Content,
    pub writable: bool,
    pub kind: u8, // 0 heap 1 stack 2 global
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub ret_dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub enum Input {
    Val(String, T),
    Arr(String, u32),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub pc: Vec<T>,
    pub facts: HashSet<T>,
    /// terms the facts fix: conditions, and sides of equations with constants
    pub env: HashMap<T, T>,
    pub bounds: HashMap<T, (u128, u128)>,
    pub smemo: std::cell::RefCell<HashMap<T, T>>,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub counts: HashMap<String, u32>,
    pub sha: Vec<Vec<(u64, Seg)>>,
    pub luck: u32,
    pub alloc_limit: Option<u64>,
    /// limit on live memory, and how much was allocated since it was set
    pub alloc_total: Option<(i64, i64)>,
    /// how many digests of other inputs than the hash tree's are followed
    pub digest_cap: Option<u64>,
    /// symbolic numbers are formatted, not left out
    pub format: bool,
    pub reached: BTreeSet<String>,
    pub instrs: u64,
    pub allow_panic: bool,
    pub errno_addr: u64,
    pub trace: Vec<String>,
}

pub enum Stop {
    Done,
    Infeasible,
    Bound(String),
    /// panic, memory error, ... (kind, description)
    Fail(String, String),
    /// the engine cannot continue
    Engine(String),
}
pub type X<A> = Result<A, Stop>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, InVal)>,
    pub trace: Vec<String>,
}
pub enum InVal {
    V(u64),
    A(Vec<(u64, u8)>),
}

#[derive(Clone, PartialEq)]
pub enum ArrKind {
    Input,
    Digest,
    /// AES-CBC output: (encrypt?, key, iv, input, length)
    Crypt(bool, Vec<Pc>, Vec<Pc>, Rc<CryptIn>),
}
pub struct CryptIn {
    pub segs: Vec<(u64, Seg)>,
    pub len: u64,
}
impl PartialEq for CryptIn {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self, o)
    }
}

pub struct Cfg {
    pub max_paths: u64,
    pub max_instrs: u64,
    pub max_time: f64,
    pub luck: u32,
    pub max_viol: usize,
    pub verbose: bool,
    pub traces: usize,
    pub seed: u64,
}

pub struct Ex {
    pub p: Prog,
    pub smt: Smt,
    pub cfg: Cfg,
    pub work: Vec<State>,
    pub kinds: Vec<FnKind>,
    pub vars: HashMap<(String, u16, u64, u64), T>,
    pub arrs: HashMap<String, u32>,
    pub arr_kind: Vec<ArrKind>,
    pub canon: Canon,
    pub digests: HashMap<Vec<Pc>, u32>,
    pub crypts: HashMap<(bool, Vec<Pc>, Vec<Pc>, Vec<Pc>), u32>,
    pub gcache: HashMap<u32, Rc<Obj>>,
    pub gaddr: BTreeMap<u64, u32>,
    pub violations: Vec<Violation>,
    pub vio_keys: HashSet<(String, String)>,
    pub executed: HashSet<u32>,
    pub stats: Stats,
    pub inconclusive: Vec<String>,
    pub t0: Instant,
}
#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub bounded: BTreeMap<String, u64>,
    pub failed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub checks: BTreeMap<String, (u64, u64)>, // message -> (evaluated, decided by solver)
    pub reach: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub traces: Vec<(Vec<(String, InVal)>, Vec<String>)>,
    pub rnd: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FnKind {
    Unknown,
    Body,
    Llvm,
    Ext,
    Panic,
    AllocFail,
    RetVoid,
    FmtNum,
}

fn c64(v: u64) -> T {
    con(v as u128, 64)
}
#[inline]
fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Ex {
    pub fn new(p: Prog, cfg: Cfg, timeout_ms: u32) -> Ex {
        let cfg_seed = cfg.seed;
        let kinds = vec![FnKind::Unknown; p.funcs.len()];
        let gaddr = p.globals.iter().enumerate().map(|(i, g)| (g.addr, i as u32)).collect();
        Ex {
            p,
            smt: Smt::new(timeout_ms),
            cfg,
            work: vec![],
            kinds,
            vars: HashMap::new(),
            arrs: HashMap::new(),
            arr_kind: vec![],
            canon: Canon::default(),
            digests: HashMap::new(),
            crypts: HashMap::new(),
            gcache: HashMap::new(),
            gaddr,
            violations: vec![],
            vio_keys: HashSet::new(),
            executed: HashSet::new(),
            stats: Stats { rnd: cfg_seed, ..Stats::default() },
            inconclusive: vec![],
            t0: Instant::now(),
        }
    }

    pub fn run(&mut self, entry: &str, arg: Option<u64>) -> Result<(), String> {
        let f = *self.p.fidx.get(entry).ok_or(format!("no function {entry}"))?;
        let body = self.p.body(f)?.ok_or("no body")?;
        let mut st = State {
            frames: vec![],
            objs: BTreeMap::new(),
            next: 0x1_0000_0000,
            pc: vec![],
            facts: HashSet::new(),
            env: HashMap::new(),
            bounds: HashMap::new(),
            smemo: std::cell::RefCell::new(HashMap::new()),
            model: Rc::new(Model::new()),
            inputs: vec![],
            counts: HashMap::new(),
            sha: vec![],
            luck: 0,
            alloc_limit: None,
            alloc_total: None,
            digest_cap: None,
            format: false,
            reached: BTreeSet::new(),
            instrs: 0,
            allow_panic: false,
            errno_addr: 0,
            trace: vec![],
        };
        st.errno_addr = self.new_obj(&mut st, 8, 0);
        let ea = V::C(st.errno_addr);
        self.store_n(&mut st, &ea, 8, 0).ok();
        let mut regs = vec![V::Undef; body.nregs];
        for i in 0..body.nargs {
            regs[i] = V::C(arg.unwrap_or(0));
        }
        st.frames.push(Frame { f, body, block: 0, ip: 0, regs, allocas: vec![], ret_dst: NOREG, normal: None });
        self.executed.insert(f);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.stats.paths >= self.cfg.max_paths {
                self.inconclusive.push(format!("path limit {} reached", self.cfg.max_paths));
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                self.inconclusive.push(format!("time limit {}s reached", self.cfg.max_time));
                break;
            }
            self.stats.paths += 1;
            let r = self.run_path(&mut st);
            self.stats.instrs += st.instrs;
            for k in &st.reached {
                *self.stats.reach.entry(k.clone()).or_default() += 1;
            }
            match r {
                Stop::Done => {
                    self.stats.done += 1;
                    if self.stats.samples.len() < 6 {
                        let s = self.inputs_of(&st, &st.model.clone());
                        self.stats.samples.push(show_inputs(&s));
                    }
                    // reservoir of completed paths, for validation against the native build
                    let k = self.stats.traces.len();
                    let slot = if k < self.cfg.traces {
                        Some(k)
                    } else if k > 0 {
                        self.stats.rnd = self.stats.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let r = (self.stats.rnd >> 33) % self.stats.done;
                        if (r as usize) < k { Some(r as usize) } else { None }
                    } else {
                        None
                    };
                    if let Some(i) = slot {
                        let t = (self.inputs_of(&st, &st.model.clone()), st.trace.clone());
                        if i == k {
                            self.stats.traces.push(t);
                        } else {
                            self.stats.traces[i] = t;
                        }
                    }
                }
                Stop::Infeasible => self.stats.infeasible += 1,
                Stop::Bound(b) => *self.stats.bounded.entry(b).or_default() += 1,
                Stop::Fail(k, m) => {
                    self.stats.failed += 1;
                    if !(k == "panic" && st.allow_panic) {
                        let m0 = st.model.clone();
                        self.violation(&st, k, m, &m0);
                    }
                }
                Stop::Engine(m) => {
                    let m = format!("{m} [{}]", self.stack(&st).join(" < "));
                    if self.cfg.verbose {
                        eprintln!("ENGINE: {m}");
                    }
                    self.inconclusive.push(m);
                    if self.inconclusive.len() > 20 {
                        break;
                    }
                }
            }
            if self.cfg.verbose && self.stats.paths % 200 == 0 {
                eprintln!(
                    "paths {} pending {} queries {} solver {:.1}s instrs {} terms {} t {:.1}",
                    self.stats.paths,
                    self.work.len(),
                    self.smt.queries,
                    self.smt.time,
                    self.stats.instrs,
                    ar().nodes.len(),
                    self.t0.elapsed().as_secs_f64()
                );
            }
            if self.violations.len() >= self.cfg.max_viol {
                break;
            }
        }
        Ok(())
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| self.p.funcs[f.f as usize].name.clone()).collect()
    }
    pub fn inputs_of(&self, st: &State, m: &Model) -> Vec<(String, InVal)> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Val(n, t) => (n.clone(), InVal::V(m.eval(*t) as u64)),
                Input::Arr(n, a) => {
                    let mut v: Vec<(u64, u8)> =
                        m.arrs.iter().filter(|(k, _)| k.0 == *a).map(|(k, v)| (k.1, *v)).collect();
                    v.sort_unstable();
                    (n.clone(), InVal::A(v))
                }
            })
            .collect()
    }
    pub fn violation(&mut self, st: &State, kind: String, msg: String, m: &Model) {
        // the key names the failing behaviour: kind, message, and for panics the innermost project frames
        let stack = self.stack(st);
        let key = (kind.clone(), msg.clone());
        if !self.vio_keys.insert(key) {
            return;
        }
        if self.cfg.verbose {
            eprintln!("VIOLATION {kind}: {msg}\n   {}", stack.iter().take(8).cloned().collect::<Vec<_>>().join("\n   "));
        }
        let inputs = self.inputs_of(st, m);
        self.violations.push(Violation { kind, msg, stack, inputs, trace: st.trace.clone() });
    }

    // ---------- decisions ----------
    pub fn decide(&mut self, st: &mut State, c: T) -> X<bool> {
        let c = st.simp(c);
        if let Some(k) = cval(c) {
            return Ok(k == 1);
        }
        if st.facts.contains(&c) {
            return Ok(true);
        }
        let nc = not(c);
        if st.facts.contains(&nc) {
            return Ok(false);
        }
        let mv = st.model.eval(c) == 1;
        let (taken, other) = if mv { (c, nc) } else { (nc, c) };
        match self.smt.check(&st.pc, other, Some(&st.model)) {
            Res::Unsat => {
                st.learn(taken);
                Ok(mv)
            }
            Res::Sat(m2) => {
                self.stats.forks += 1;
                let digest = deps(c).iter().any(|d| {
                    d >> 31 == 1 && self.arr_kind.get((d & 0x7fff_ffff) as usize) == Some(&ArrKind::Digest)
                });
                if digest {
                    st.luck += 1;
                    if st.luck > self.cfg.luck {
                        return Err(Stop::Bound("digest-dependent branches".into()));
                    }
                }
                let mut sib = st.clone();
                sib.pc.push(other);
                sib.learn(other);
                sib.model = m2;
                self.work.push(sib);
                st.pc.push(taken);
                st.learn(taken);
                Ok(mv)
            }
            Res::Unknown => {
                self.inconclusive.push("solver returned unknown on a branch condition".into());
                // explore only the side with a witness; the run is reported as inconclusive
                st.pc.push(taken);
                st.learn(taken);
                Ok(mv)
            }
        }
    }
    pub fn concretize(&mut self, st: &mut State, v: &V, w: u16) -> X<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::Undef => Ok(0),
            V::S(t) => {
                let t = st.simp(*t);
                let _ = w;
                let k = st.model.eval(t);
                let c = eq(t, con(k, width(t)));
                if self.decide(st, c)? {
                    st.fix_eq(t, k);
                    Ok(k as u64)
                } else {
                    Err(Stop::Engine("concretize".into()))
                }
            }
            V::Agg(_) => Err(Stop::Engine("concretize aggregate".into())),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: T) -> X<()> {
        match cval(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::Infeasible),
            None => {}
        }
        if st.facts.contains(&c) {
            return Ok(());
        }
        if st.model.eval(c) != 1 {
            match self.smt.check(&st.pc, c, Some(&st.model)) {
                Res::Sat(m) => st.model = m,
                Res::Unsat => return Err(Stop::Infeasible),
                Res::Unknown => {
                    self.inconclusive.push("solver returned unknown on an assumption".into());
                    return Err(Stop::Infeasible);
                }
            }
        }
        st.pc.push(c);
        st.learn(c);
        Ok(())
    }
    pub fn check(&mut self, st: &mut State, v: &V, msg: &str) -> X<()> {
        let e = self.stats.checks.entry(msg.to_string()).or_default();
        e.0 += 1;
        let c = v.t(1);
        match cval(c) {
            Some(1) => return Ok(()),
            Some(_) => {
                let m = st.model.clone();
                self.violation(st, "check".into(), msg.into(), &m);
                return Err(Stop::Bound("after failed check".into()));
            }
            None => {}
        }
        if st.facts.contains(&c) {
            return Ok(());
        }
        self.stats.checks.get_mut(msg).unwrap().1 += 1;
        match self.smt.check(&st.pc, not(c), Some(&st.model)) {
            Res::Unsat => {
                st.learn(c);
                Ok(())
            }
            Res::Sat(m) => {
                if std::env::var("SYMEX_WHY").is_ok() {
                    why(&m, c, 0);
                    for p in &st.pc {
                        eprintln!("PC {} = {}", show_d(*p, 12), m.eval(*p));
                    }
                }
                self.violation(st, "check".into(), msg.into(), &m);
                self.assume(st, c)
            }
            Res::Unknown => {
                self.inconclusive.push(format!("solver returned unknown on check '{msg}'"));
                self.assume(st, c)
            }
        }
    }

    // ---------- memory ----------
    pub fn new_obj(&mut self, st: &mut State, size: u64, kind: u8) -> u64 {
        let base = st.next;
        st.next = (base + size + 0x40 + 31) & !31;
        st.objs.insert(
            base,
            Rc::new(Obj { base, size, ssize: None, content: Content::undef(size), writable: true, kind }),
        );
        base
    }
    fn global_obj(&mut self, gi: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&gi) {
            return Ok(o.clone());
        }
        let init = self.p.global_init(gi).map_err(Stop::Engine)?;
        let g = &self.p.globals[gi as usize];
        let (addr, size, ty, isc) = (g.addr, g.size, g.ty.clone(), g.is_const);
        let mut cells = vec![UNDEF; size as usize];
        match init {
            Some(v) => flatten(&v, &ty, 0, &mut cells),
            None => {
                if self.p.globals[gi as usize].init.is_none() {
                    for c in cells.iter_mut() {
                        *c = Cell::con(0);
                    }
                }
            }
        }
        let content = if size <= FLAT_MAX {
            Content::Flat(Rc::new(cells))
        } else {
            let mut r = Rope::new(K::Undef);
            r.put_cells(0, &cells);
            Content::Rope(Rc::new(r))
        };
        let o = Rc::new(Obj { base: addr, size, ssize: None, content, writable: !isc, kind: 2 });
        self.gcache.insert(gi, o.clone());
        Ok(o)
    }
    /// object containing addr (or ending exactly at it)
    fn find(&mut self, st: &mut State, addr: u64) -> X<Option<u64>> {
        if let Some((b, o)) = st.objs.range(..=addr).next_back() {
            if addr - b <= o.size {
                return Ok(Some(*b));
            }
        }
        if addr >= GLOBAL_BASE && addr < 0x1_0000_0000 {
            if let Some((_, &gi)) = self.gaddr.range(..=addr).next_back() {
                let g = &self.p.globals[gi as usize];
                if addr - g.addr <= g.size {
                    let o = self.global_obj(gi)?;
                    let b = o.base;
                    st.objs.insert(b, o);
                    return Ok(Some(b));
                }
            }
        }
        Ok(None)
    }
    fn memfail<A>(&self, what: String) -> X<A> {
        Err(Stop::Fail("memory".into(), what))
    }
    /// resolve [p, p+n) to (object, offset term or constant)
    pub fn resolve(&mut self, st: &mut State, p: &V, n: T) -> X<(u64, T)> {
        let (p2, n) = (st.simp_v(p), st.simp(n));
        let p = &p2;
        match p {
            V::C(a) => {
                let a = *a;
                let Some(b) = self.find(st, a)? else {
                    return self.memfail(format!("access to unmapped address {a:#x}"));
                };
                let o = st.objs[&b].clone();
                let off = a - b;
                let lim = o.ssize.unwrap_or(c64(o.size));
                if let (Some(n), Some(l)) = (cval(n), cval(lim)) {
                    if off as u128 + n <= l {
                        return Ok((b, c64(off)));
                    }
                    return self.memfail(format!("out of bounds: offset {off} + {n} > {l}"));
                }
                if rng(n).1 > 1 << 62 {
                    let ok = self.decide(st, ule(n, c64(1 << 62)))?;
                    if !ok {
                        return self.memfail("out of bounds: huge length".into());
                    }
                }
                let c = ule(add(c64(off), n), lim);
                if !self.decide(st, c)? {
                    return self.memfail("out of bounds (symbolic length)".into());
                }
                Ok((b, c64(off)))
            }
            V::S(t) => {
                let t = *t;
                // a pointer chosen among a few addresses: follow each of them
                if few(t, 16).is_some() {
                    let a = self.concretize(st, p, 64)?;
                    return self.resolve(st, &V::C(a), n);
                }
                let (lo, hi) = rng(t);
                if let Some(n) = cval(n) {
                    if hi < 1 << 63 {
                        if let Some(b) = self.find(st, lo as u64)? {
                            let o = &st.objs[&b];
                            if o.ssize.is_none() && hi + n <= (b + o.size) as u128 {
                                return Ok((b, sub(t, c64(b))));
                            }
                        }
                    }
                }
                let a = st.model.eval(t) as u64;
                let Some(b) = self.find(st, a)? else {
                    return self.memfail(format!("access to unmapped address {a:#x} (symbolic pointer)"));
                };
                let o = st.objs[&b].clone();
                let lim = o.ssize.unwrap_or(c64(o.size));
                let off = sub(t, c64(b));
                if rng(n).1 > 1 << 62 && !self.decide(st, ule(n, c64(1 << 62)))? {
                    return self.memfail("out of bounds: huge length".into());
                }
                // off <= lim - n  with n <= lim
                let c = and(ule(n, lim), ule(off, sub(lim, n)));
                if self.decide(st, c)? {
                    Ok((b, off))
                } else {
                    self.memfail("out of bounds (symbolic pointer)".into())
                }
            }
            V::Undef => self.memfail("access through undefined pointer".into()),
            V::Agg(_) => Err(Stop::Engine("aggregate pointer".into())),
        }
    }
    fn fix<A>(&mut self, st: &mut State, r: Result<A, MErr>) -> X<Option<A>> {
        match r {
            Ok(a) => Ok(Some(a)),
            Err(MErr::Concretize(t)) => {
                self.concretize(st, &V::S(t), width(t))?;
                Ok(None)
            }
        }
    }
    /// cells of [off, off+n) of an object; off may be symbolic
    pub fn obj_cells(&mut self, st: &mut State, b: u64, off: T, n: u64) -> X<Vec<Cell>> {
        let mut off = off;
        for _ in 0..3 {
            let o = st.objs[&b].clone();
            let r = match cval(off) {
                Some(k) => o.content.cells(k as u64, n),
                None => {
                    let mut v = Vec::with_capacity(n as usize);
                    let mut e = None;
                    for i in 0..n {
                        match o.content.byte(add(off, c64(i))) {
                            Ok(c) => v.push(c),
                            Err(x) => {
                                e = Some(x);
                                break;
                            }
                        }
                    }
                    match e {
                        None => Ok(v),
                        Some(x) => Err(x),
                    }
                }
            };
            if let Some(v) = self.fix(st, r)? {
                return Ok(v);
            }
            // a term was made concrete: use the value for our own offset when it is not constant
            if cval(off).is_none() {
                let k = self.concretize(st, &V::S(off), 64)?;
                off = c64(k);
            }
        }
        Err(Stop::Engine("cannot resolve symbolic read".into()))
    }
    pub fn mem_cells(&mut self, st: &mut State, p: &V, n: u64) -> X<Vec<Cell>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, off) = self.resolve(st, p, c64(n))?;
        self.obj_cells(st, b, off, n)
    }
    pub fn put_cells(&mut self, st: &mut State, p: &V, cells: &[Cell]) -> X<()> {
        if cells.is_empty() {
            return Ok(());
        }
        let (b, off) = self.resolve(st, p, c64(cells.len() as u64))?;
        let o = Rc::make_mut(st.objs.get_mut(&b).unwrap());
        if !o.writable {
            return self.memfail("write to constant".into());
        }
        match cval(off) {
            Some(k) => o.content.put_cells(k as u64, cells),
            None => o.content.put_layer(off, c64(cells.len() as u64), K::Cells(Rc::new(cells.to_vec()), 0)),
        }
        Ok(())
    }
    pub fn load_n(&mut self, st: &mut State, p: &V, n: u64) -> X<V> {
        // fast path: concrete address, flat object
        let cells = self.mem_cells(st, p, n)?;
        Ok(cells_val(&cells, (n * 8) as u16))
    }
    pub fn store_n(&mut self, st: &mut State, p: &V, n: u64, v: u64) -> X<()> {
        let cells: Vec<Cell> = (0..n).map(|i| Cell::con((v >> (8 * i)) as u8)).collect();
        self.put_cells(st, p, &cells)
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: &V) -> X<V> {
        if ty.is_agg() {
            let n = ty.store_size();
            let cells = self.mem_cells(st, p, n)?;
            return Ok(unflatten(ty, &cells));
        }
        let w = ty.bits();
        let n = ty.store_size();
        // fast path
        if let V::C(a) = p {
            if let Some((b, o)) = st.objs.range(..=*a).next_back() {
                let off = a - b;
                if let Content::Flat(f) = &o.content {
                    if o.ssize.is_none() && off + n <= o.size {
                        return Ok(cells_val(&f[off as usize..(off + n) as usize], w));
                    }
                }
            }
        }
        let cells = self.mem_cells(st, p, n)?;
        Ok(cells_val(&cells, w))
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: &V) -> X<()> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        let mut buf = [UNDEF; 16];
        if !ty.is_agg() {
            let cs = &mut buf[..n as usize];
            val_cells(v, ty.bits(), cs);
            if let V::C(a) = p {
                if let Some((b, o)) = st.objs.range_mut(..=*a).next_back() {
                    let off = a - b;
                    if o.ssize.is_none() && off + n <= o.size && o.writable {
                        let o = Rc::make_mut(o);
                        if let Content::Flat(f) = &mut o.content {
                            Rc::make_mut(f)[off as usize..(off + n) as usize].copy_from_slice(cs);
                            return Ok(());
                        }
                    }
                }
            }
            let cs = buf[..n as usize].to_vec();
            return self.put_cells(st, p, &cs);
        }
        let mut cells = vec![UNDEF; n as usize];
        flatten(v, ty, 0, &mut cells);
        self.put_cells(st, p, &cells)
    }
    /// contents of [p, p+n) as segments
    pub fn mem_segs(&mut self, st: &mut State, p: &V, n: u64) -> X<Vec<(u64, Seg)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, off) = self.resolve(st, p, c64(n))?;
        Ok(st.objs[&b].content.slice_k(off, n))
    }
    pub fn put_segs(&mut self, st: &mut State, p: &V, n: u64, segs: Vec<(u64, Seg)>) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (b, off) = self.resolve(st, p, c64(n))?;
        let flat = matches!(st.objs[&b].content, Content::Flat(_));
        match cval(off) {
            Some(k) => {
                if flat || n <= 64 {
                    let mut cells = Vec::with_capacity(n as usize);
                    for (_, g) in &segs {
                        for i in 0..g.len {
                            let mut done = false;
                            for _ in 0..3 {
                                let r = g.k.cell(i);
                                if let Some(c) = self.fix(st, r)? {
                                    cells.push(c);
                                    done = true;
                                    break;
                                }
                            }
                            if !done {
                                return Err(Stop::Engine("unresolved copy".into()));
                            }
                        }
                    }
                    let o = Rc::make_mut(st.objs.get_mut(&b).unwrap());
                    o.content.put_cells(k as u64, &cells);
                } else {
                    let o = Rc::make_mut(st.objs.get_mut(&b).unwrap());
                    o.content.put_segs(k as u64, segs);
                }
            }
            None => {
                let src = if segs.len() == 1 {
                    segs[0].1.k.clone()
                } else {
                    let mut r = Rope::new(K::Undef);
                    for (rel, g) in segs {
                        r.put(rel, g.len, g.k);
                    }
                    K::View(Rc::new(r), c64(0))
                };
                let o = Rc::make_mut(st.objs.get_mut(&b).unwrap());
                o.content.put_layer(off, c64(n), src);
            }
        }
        Ok(())
    }
    pub fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> X<()> {
        match &st.simp_v(n) {
            V::C(0) => Ok(()),
            V::C(n) => {
                let n = *n;
                let segs = self.mem_segs(st, s, n)?;
                self.check_writable(st, d, n)?;
                self.put_segs(st, d, n, segs)
            }
            V::Undef | V::Agg(_) => Err(Stop::Engine("memcpy with undefined length".into())),
            V::S(t) => {
                let t = *t;
                if rng(t).0 == 0 && self.decide(st, eq(t, c64(0)))? {
                    return Ok(());
                }
                let (sb, so) = self.resolve(st, s, t)?;
                let (db, doff) = self.resolve(st, d, t)?;
                let src = st.objs[&sb].content.view(so, rng(t).1);
                let o = Rc::make_mut(st.objs.get_mut(&db).unwrap());
                if !o.writable {
                    return self.memfail("write to constant".into());
                }
                o.content.put_layer(doff, t, src);
                Ok(())
            }
        }
    }
    fn check_writable(&mut self, st: &mut State, d: &V, n: u64) -> X<()> {
        let (b, _) = self.resolve(st, d, c64(n))?;
        if !st.objs[&b].writable {
            return self.memfail("write to constant".into());
        }
        Ok(())
    }
    pub fn memset(&mut self, st: &mut State, d: &V, b: &V, n: &V) -> X<()> {
        let k = match b {
            V::C(b) => K::Fill(*b as u8),
            V::Undef => K::Undef,
            V::S(t) => {
                let c = Cell::from_term(*t);
                match n {
                    V::C(n) if *n <= 1 << 16 => K::Cells(Rc::new(vec![c; *n as usize]), 0),
                    _ => {
                        let v = self.concretize(st, &V::S(*t), 8)?;
                        K::Fill(v as u8)
                    }
                }
            }
            _ => return Err(Stop::Engine("memset".into())),
        };
        match n {
            V::C(0) => Ok(()),
            V::C(n) => self.put_segs(st, d, *n, vec![(0, Seg { len: *n, k })]),
            V::S(t) => {
                let t = *t;
                if rng(t).0 == 0 && self.decide(st, eq(t, c64(0)))? {
                    return Ok(());
                }
                let (db, doff) = self.resolve(st, d, t)?;
                let o = Rc::make_mut(st.objs.get_mut(&db).unwrap());
                o.content.put_layer(doff, t, k);
                Ok(())
            }
            _ => Err(Stop::Engine("memset length".into())),
        }
    }
    pub fn alloc(&mut self, st: &mut State, size: &V, zero: bool) -> X<V> {
        let lim = st.alloc_limit;
        let (max, ss) = match size {
            V::C(n) => (*n, None),
            V::S(t) => {
                let cap: u64 = 1 << 46;
                if rng(*t).1 > cap as u128 && !self.decide(st, ule(*t, c64(cap)))? {
                    if lim.is_some() {
                        return Err(Stop::Fail("alloc".into(), "allocation not bounded by the input".into()));
                    }
                    return Ok(V::C(0));
                }
                (rng(*t).1.min(cap as u128) as u64, Some(*t))
            }
            _ => return Err(Stop::Engine("malloc size".into())),
        };
        if let Some(l) = lim {
            let over = match ss {
                None => max > l,
                Some(t) => !self.decide(st, ule(t, c64(l)))?,
            };
            if over {
                return Err(Stop::Fail("alloc".into(), "allocation not bounded by the input".into()));
            }
        }
        if ss.is_none() && max > 1 << 46 {
            return Ok(V::C(0));
        }
        if let Some((l, live)) = &mut st.alloc_total {
            *live += ss.map_or(max, |t| rng(t).0 as u64) as i64;
            if *live > *l {
                return Err(Stop::Fail("alloc".into(), "memory in use not bounded by the input".into()));
            }
        }
        let base = self.new_obj(st, max, 0);
        let o = Rc::make_mut(st.objs.get_mut(&base).unwrap());
        o.ssize = ss;
        if ss.is_some() {
            o.content = Content::Rope(Rc::new(Rope::new(K::Undef)));
        }
        if zero {
            o.content = if max <= FLAT_MAX && ss.is_none() {
                Content::Flat(Rc::new(vec![Cell::con(0); max as usize]))
            } else {
                Content::Rope(Rc::new(Rope::new(K::Fill(0))))
            };
        }
        Ok(V::C(base))
    }
    pub fn realloc(&mut self, st: &mut State, p: &V, n: &V) -> X<V> {
        let V::C(a) = p else { return Err(Stop::Engine("realloc of symbolic pointer".into())) };
        if *a == 0 {
            return self.alloc(st, n, false);
        }
        let Some(old) = st.objs.get(a).cloned() else {
            return self.memfail("realloc of invalid pointer".into());
        };
        let r = self.alloc(st, n, false)?;
        if let V::C(b) = r {
            if b != 0 {
                st.objs.remove(a);
                if let Some((_, live)) = &mut st.alloc_total {
                    *live -= old.ssize.map_or(old.size, |t| rng(t).0 as u64) as i64;
                }
                let o = Rc::make_mut(st.objs.get_mut(&b).unwrap());
                match (&mut o.content, &old.content) {
                    (Content::Flat(f), Content::Flat(g)) => {
                        let n = f.len().min(g.len());
                        Rc::make_mut(f)[..n].copy_from_slice(&g[..n]);
                    }
                    (c @ Content::Rope(_), g) => *c = Content::Rope(g.rope()),
                    (c @ Content::Flat(_), g @ Content::Rope(_)) => *c = g.clone(),
                }
            }
        }
        Ok(r)
    }

    // ---------- crypto models ----------
    fn canon_of(&mut self, st: &mut State, segs: &[(u64, Seg)]) -> X<Vec<Pc>> {
        for _ in 0..4 {
            let r = self.canon.canon(segs);
            if let Some(v) = self.fix(st, r)? {
                return Ok(v);
            }
        }
        Err(Stop::Engine("cannot canonicalise data".into()))
    }
    pub fn same_bytes(&mut self, st: &mut State, a: &[(u64, Seg)], b: &[(u64, Seg)]) -> X<bool> {
        let x = self.canon_of(st, a)?;
        let y = self.canon_of(st, b)?;
        Ok(x == y && !x.iter().any(|p| matches!(p, Pc::U(_))))
    }
    pub fn new_array(&mut self, name: &str, k: ArrKind) -> u32 {
        let id = new_arr(name);
        while self.arr_kind.len() <= id as usize {
            self.arr_kind.push(ArrKind::Input);
        }
        self.arr_kind[id as usize] = k;
        id
    }
    pub fn digest(&mut self, st: &mut State, segs: &[(u64, Seg)]) -> X<u32> {
        let key = self.canon_of(st, segs)?;
        if let Some(&a) = self.digests.get(&key) {
            return Ok(a);
        }
        let a = self.new_array("sha1", ArrKind::Digest);
        self.digests.insert(key, a);
        Ok(a)
    }
    /// AES-128-CBC over `n` bytes (multiple of 16); returns output segments
    pub fn cbc(
        &mut self,
        st: &mut State,
        enc: bool,
        key: Vec<(u64, Seg)>,
        iv: Vec<(u64, Seg)>,
        input: Vec<(u64, Seg)>,
        n: u64,
    ) -> X<Vec<(u64, Seg)>> {
        let ck = self.canon_of(st, &key)?;
        let civ = self.canon_of(st, &iv)?;
        let cin = self.canon_of(st, &input)?;
        // inverse: every piece is the output of the opposite operation with chaining ivs
        let mut out: Vec<(u64, Seg)> = vec![];
        let mut pos = 0u64;
        let mut prev = civ.clone();
        let mut ok = true;
        for p in &cin {
            let Pc::A(a, o, len) = p else {
                ok = false;
                break;
            };
            let (Some(o), ArrKind::Crypt(e2, k2, iv2, inp)) = (cval(*o), self.arr_kind[*a as usize].clone()) else {
                ok = false;
                break;
            };
            let o = o as u64;
            if e2 == enc || k2 != ck || o % 16 != 0 || len % 16 != 0 {
                ok = false;
                break;
            }
            let want = if enc {
                // encrypting a decryption: the chaining value is the *ciphertext* before this block
                if o == 0 {
                    iv2.clone()
                } else {
                    let s = slice_segs(&inp.segs, o - 16, 16);
                    self.canon_of(st, &s)?
                }
            } else if o == 0 {
                iv2.clone()
            } else {
                vec![Pc::A(*a, c64(o - 16), 16)]
            };
            if want != prev {
                ok = false;
                break;
            }
            for (rel, g) in slice_segs(&inp.segs, o, *len) {
                out.push((pos + rel, g));
            }
            pos += len;
            prev = if enc {
                let s = slice_segs(&inp.segs, o + len - 16, 16);
                self.canon_of(st, &s)?
            } else {
                vec![Pc::A(*a, c64(o + len - 16), 16)]
            };
        }
        if ok && pos == n {
            return Ok(out);
        }
        if std::env::var("SYMEX_CBC").is_ok() && !enc {
            eprintln!("CBC not inverted: {:?}", cin.iter().take(6).collect::<Vec<_>>());
            for (_, g) in input.iter().take(3) {
                eprintln!("   {}", g.k.show());
            }
        }
        let id = match self.crypts.get(&(enc, ck.clone(), civ.clone(), cin.clone())) {
            Some(&a) => a,
            None => {
                let a = self.new_array(
                    if enc { "enc" } else { "dec" },
                    ArrKind::Crypt(enc, ck.clone(), civ.clone(), Rc::new(CryptIn { segs: input, len: n })),
                );
                self.crypts.insert((enc, ck, civ, cin), a);
                a
            }
        };
        Ok(vec![(0, Seg { len: n, k: K::Arr(id, c64(0)) })])
    }

    // ---------- the main loop ----------
    fn run_path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            st.instrs += 1;
            if st.instrs & 0xfff == 0 {
                if st.instrs > self.cfg.max_instrs {
                    return Stop::Engine(format!("instruction limit {} reached", self.cfg.max_instrs));
                }
                if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                    return Stop::Engine("time limit reached".into());
                }
            }
        }
    }
    #[inline]
    fn get(&self, st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let f = st.frames.last_mut().unwrap();
        let from = f.block;
        let body = f.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for (dst, ins) in &b.phis {
                let Some((_, o)) = ins.iter().find(|x| x.0 == from) else {
                    return Err(Stop::Engine("phi without matching predecessor".into()));
                };
                let v = match o {
                    O::R(r) => f.regs[*r as usize].clone(),
                    O::K(v) => v.clone(),
                };
                vals.push((*dst, v));
            }
            for (_, v) in &mut vals {
                st.tidy(v);
            }
            let f = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.block = to;
        f.ip = 0;
        Ok(())
    }
    pub fn finish_call(&mut self, st: &mut State, dst: u32, normal: Option<u32>, v: V) -> X<()> {
        let f = st.frames.last_mut().unwrap();
        if dst != NOREG {
            f.regs[dst as usize] = v;
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => {
                f.ip += 1;
                Ok(())
            }
        }
    }
    fn step(&mut self, st: &mut State) -> X<()> {
        let fr = st.frames.last().unwrap();
        let body = fr.body.clone();
        let ins = &body.blocks[fr.block as usize].ins[fr.ip];
        let dst = ins.dst;
        let val: V = match &ins.i {
            I::Bin(op, ty, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                if let Ty::Vec(_, et) = ty {
                    self.vec2(st, &a, &b, |ex, st, x, y| ex.bin(st, *op, et, x, y))?
                } else {
                    self.bin(st, *op, ty, &a, &b)?
                }
            }
            I::ICmp(op, ty, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                if let Ty::Vec(_, et) = ty {
                    let w = et.bits();
                    self.vec2(st, &a, &b, |_, _, x, y| Ok(icmp(*op, w, x, y)))?
                } else {
                    icmp(*op, ty.bits(), &a, &b)
                }
            }
            I::FCmp(op, ty, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let w = ty.bits();
                let (x, y) = (a.t(w), b.t(w));
                let nan = |t: T| not(fcmp(2, t, t));
                let r = match op.as_str() {
                    "olt" => fcmp(0, x, y),
                    "ole" => fcmp(1, x, y),
                    "ogt" => fcmp(0, y, x),
                    "oge" => fcmp(1, y, x),
                    "oeq" => fcmp(2, x, y),
                    "une" => not(fcmp(2, x, y)),
                    "ult" => not(fcmp(1, y, x)),
                    "ule" => not(fcmp(0, y, x)),
                    "ugt" => not(fcmp(1, x, y)),
                    "uge" => not(fcmp(0, x, y)),
                    "uno" => or(nan(x), nan(y)),
                    "ord" => not(or(nan(x), nan(y))),
                    o => return Err(Stop::Engine(format!("fcmp {o}"))),
                };
                V::from_t(r)
            }
            I::FNeg(ty, a) => {
                let a = self.get(st, a);
                let w = ty.bits();
                V::from_t(xor(a.t(w), con(1u128 << (w - 1), w)))
            }
            I::Cast(k, t1, a, t2) => {
                let a = self.get(st, a);
                self.cast(*k, t1, &a, t2)?
            }
            I::Gep(b, off, var) => {
                let base = self.get(st, b);
                match &base {
                    V::Undef => V::Undef,
                    _ => {
                        if let V::C(a) = &base {
                            let mut acc = a.wrapping_add(*off as u64);
                            let mut sym: Option<T> = None;
                            for (o, w, sc) in var {
                                match self.get(st, o) {
                                    V::C(k) => acc = acc.wrapping_add((sx(k, *w)).wrapping_mul(*sc) as u64),
                                    V::Undef => return Err(Stop::Engine("gep with undef index".into())),
                                    v => {
                                        let t = sext(v.t(*w), 64);
                                        let t = mulc(t, *sc as u64 as u128);
                                        sym = Some(match sym {
                                            None => t,
                                            Some(s) => add(s, t),
                                        });
                                    }
                                }
                            }
                            match sym {
                                None => V::C(acc),
                                Some(s) => V::from_t(add(s, c64(acc))),
                            }
                        } else {
                            let mut t = add(base.t(64), c64(*off as u64));
                            for (o, w, sc) in var {
                                let v = self.get(st, o);
                                t = add(t, mulc(sext(v.t(*w), 64), *sc as u64 as u128));
                            }
                            V::from_t(t)
                        }
                    }
                }
            }
            I::Load(ty, p) => {
                let p = self.get(st, p);
                let mut v = self.load(st, ty, &p)?;
                st.tidy(&mut v);
                v
            }
            I::Store(ty, v, p) => {
                let (v, p) = (self.get(st, v), self.get(st, p));
                self.store(st, ty, &v, &p)?;
                V::Undef
            }
            I::Alloca(sz, al, n) => {
                let mut size = *sz;
                if let Some((o, w)) = n {
                    let v = self.get(st, o);
                    size *= self.concretize(st, &v, *w)?;
                }
                if *al > 32 {
                    st.next = (st.next + al - 1) & !(al - 1);
                }
                let b = self.new_obj(st, size, 1);
                st.frames.last_mut().unwrap().allocas.push(b);
                V::C(b)
            }
            I::Br(b) => return self.jump(st, *b),
            I::CondBr(c, t, f) => {
                let v = self.get(st, c);
                let taken = match v {
                    V::C(k) => k & 1 == 1,
                    V::S(t) => self.decide(st, t)?,
                    _ => return Err(Stop::Engine("branch on undefined value".into())),
                };
                return self.jump(st, if taken { *t } else { *f });
            }
            I::Switch(o, w, d, cases) => {
                let v = self.get(st, o);
                let to = match v {
                    V::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d),
                    V::S(t) => {
                        let k = st.model.eval(t) as u64;
                        if let Some(c) = cases.iter().find(|c| c.0 == k) {
                            if !self.decide(st, eq(t, con(k as u128, *w)))? {
                                return Err(Stop::Engine("switch".into()));
                            }
                            c.1
                        } else {
                            let mut c = tru();
                            for (k, _) in cases {
                                c = and(c, ne(t, con(*k as u128, *w)));
                            }
                            if !self.decide(st, c)? {
                                return Err(Stop::Engine("switch default".into()));
                            }
                            *d
                        }
                    }
                    _ => return Err(Stop::Engine("switch on undefined value".into())),
                };
                return self.jump(st, to);
            }
            I::Ret(o) => {
                let v = match o {
                    Some(o) => self.get(st, o),
                    None => V::Undef,
                };
                let f = st.frames.pop().unwrap();
                for a in f.allocas {
                    st.objs.remove(&a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let (d, n) = (f.ret_dst, f.normal);
                return self.finish_call(st, d, n, v);
            }
            I::Unreachable => return Err(Stop::Fail("memory".into(), "unreachable instruction executed".into())),
            I::Call(callee, args, rt, normal) => {
                let f = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => {
                        let v = self.get(st, o);
                        let a = self.concretize(st, &v, 64)?;
                        match self.p.fn_at(a) {
                            Some(f) => f,
                            None => return Err(Stop::Engine(format!("call to non-function {a:#x}"))),
                        }
                    }
                };
                let argv: Vec<V> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                return self.call(st, f, argv, args, rt, dst, *normal);
            }
            I::Select(c, ty, a, b, vc) => {
                let c = self.get(st, c);
                let (a, b) = (self.get(st, a), self.get(st, b));
                if *vc {
                    let et = ty.elem(0);
                    let (V::Agg(cs), V::Agg(x), V::Agg(y)) = (&c, &a, &b) else {
                        return Err(Stop::Engine("vector select".into()));
                    };
                    V::Agg(Rc::new((0..cs.len()).map(|i| select(&cs[i], &et, &x[i], &y[i])).collect()))
                } else {
                    select(&c, ty, &a, &b)
                }
            }
            I::ExtractValue(a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match v {
                        V::Agg(x) => x[*i as usize].clone(),
                        _ => V::Undef,
                    };
                }
                v
            }
            I::InsertValue(a, ty, v, ix) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                insert_val(a, ty, v, ix)
            }
            I::ExtractElement(a, i, w) => {
                let a = self.get(st, a);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, *w)?;
                match a {
                    V::Agg(x) => x.get(i as usize).cloned().unwrap_or(V::Undef),
                    _ => V::Undef,
                }
            }
            I::InsertElement(a, ty, v, i, w) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, *w)?;
                insert_val(a, ty, v, &[i as u32])
            }
            I::Shuffle(ty, a, b, m) => {
                let n = ty.count();
                let (a, b) = (self.get(st, a), self.get(st, b));
                let pick = |i: i64| -> V {
                    if i < 0 {
                        return V::Undef;
                    }
                    let (v, i) = if (i as usize) < n { (&a, i as usize) } else { (&b, i as usize - n) };
                    match v {
                        V::Agg(x) => x[i].clone(),
                        _ => V::Undef,
                    }
                };
                V::Agg(Rc::new(m.iter().map(|i| pick(*i)).collect()))
            }
            I::Freeze(ty, a) => {
                let v = self.get(st, a);
                freeze(&v, ty)
            }
            I::AtomicRmw(op, ty, p, v) => {
                let (p, v) = (self.get(st, p), self.get(st, v));
                let old = self.load(st, ty, &p)?;
                let new = match op.as_str() {
                    "xchg" => v.clone(),
                    "add" => self.bin(st, Bin::Add, ty, &old, &v)?,
                    "sub" => self.bin(st, Bin::Sub, ty, &old, &v)?,
                    "and" => self.bin(st, Bin::And, ty, &old, &v)?,
                    "or" => self.bin(st, Bin::Or, ty, &old, &v)?,
                    "xor" => self.bin(st, Bin::Xor, ty, &old, &v)?,
                    o => return Err(Stop::Engine(format!("atomicrmw {o}"))),
                };
                self.store(st, ty, &new, &p)?;
                old
            }
            I::CmpXchg(ty, p, c, n) => {
                let (p, c, n) = (self.get(st, p), self.get(st, c), self.get(st, n));
                let old = self.load(st, ty, &p)?;
                let e = icmp(Cmp::Eq, ty.bits(), &old, &c);
                let ok = match &e {
                    V::C(k) => *k == 1,
                    V::S(t) => self.decide(st, *t)?,
                    _ => false,
                };
                if ok {
                    self.store(st, ty, &n, &p)?;
                }
                V::Agg(Rc::new(vec![old, V::C(ok as u64)]))
            }
            I::Nop => V::Undef,
            I::Unsupported(s) => return Err(Stop::Engine(format!("unsupported instruction: {s}"))),
        };
        let f = st.frames.last_mut().unwrap();
        if dst != NOREG {
            f.regs[dst as usize] = val;
        }
        f.ip += 1;
        Ok(())
    }

    fn vec2(
        &mut self,
        st: &mut State,
        a: &V,
        b: &V,
        f: impl Fn(&mut Self, &mut State, &V, &V) -> X<V>,
    ) -> X<V> {
        let (V::Agg(x), V::Agg(y)) = (a, b) else { return Ok(V::Undef) };
        let mut out = Vec::with_capacity(x.len());
        for i in 0..x.len() {
            out.push(f(self, st, &x[i], &y[i])?);
        }
        Ok(V::Agg(Rc::new(out)))
    }

    pub fn bin(&mut self, st: &mut State, op: Bin, ty: &Ty, a: &V, b: &V) -> X<V> {
        let w = ty.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => {
                        return self.memfail("division by zero".into())
                    }
                    Bin::UDiv => x / y,
                    Bin::URem => x % y,
                    Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                    Bin::SRem => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                    Bin::FAdd => fbin_c(0, x as u128, y as u128, w) as u64,
                    Bin::FSub => fbin_c(1, x as u128, y as u128, w) as u64,
                    Bin::FMul => fbin_c(2, x as u128, y as u128, w) as u64,
                    Bin::FDiv => fbin_c(3, x as u128, y as u128, w) as u64,
                    Bin::FRem => fbin_c(4, x as u128, y as u128, w) as u64,
                };
                return Ok(V::C(r & m));
            }
        }
        match (a, b) {
            (V::Undef, o) | (o, V::Undef) => {
                return Ok(match (op, o) {
                    (Bin::And | Bin::LShr, V::C(_)) => V::C(0),
                    _ => V::Undef,
                })
            }
            (V::Agg(_), _) | (_, V::Agg(_)) => return Err(Stop::Engine("scalar op on aggregate".into())),
            _ => {}
        }
        let (x, y) = (a.t(w), b.t(w));
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && rng(y).0 == 0 {
            let z = eq(y, con(0, w));
            if self.decide(st, z)? {
                return self.memfail("division by zero".into());
            }
        }
        Ok(V::from_t(match op {
            Bin::Add => add(x, y),
            Bin::Sub => sub(x, y),
            Bin::Mul => mul(x, y),
            Bin::And => and(x, y),
            Bin::Or => or(x, y),
            Bin::Xor => xor(x, y),
            Bin::UDiv => udiv(x, y),
            Bin::URem => urem(x, y),
            Bin::SDiv => sdiv(x, y),
            Bin::SRem => srem(x, y),
            Bin::Shl => shl(x, y),
            Bin::LShr => lshr(x, y),
            Bin::AShr => ashr(x, y),
            Bin::FAdd => fbin(0, x, y),
            Bin::FSub => fbin(1, x, y),
            Bin::FMul => fbin(2, x, y),
            Bin::FDiv => fbin(3, x, y),
            Bin::FRem => fbin(4, x, y),
        }))
    }

    fn cast(&mut self, k: Cast, t1: &Ty, a: &V, t2: &Ty) -> X<V> {
        if k != Cast::BitCast {
            if let (Ty::Vec(_, e1), Ty::Vec(_, e2)) = (t1, t2) {
                let V::Agg(x) = a else { return Ok(undef_of(t2)) };
                let mut out = vec![];
                for v in x.iter() {
                    out.push(self.cast(k, e1, v, e2)?);
                }
                return Ok(V::Agg(Rc::new(out)));
            }
        }
        if let V::Undef = a {
            return Ok(match k {
                // some value is picked: packed partly-undefined words stay usable
                Cast::ZExt | Cast::SExt => V::C(0),
                _ => undef_of(t2),
            });
        }
        let (w1, w2) = (t1.bits(), t2.bits());
        Ok(match k {
            Cast::BitCast => {
                if t1.is_agg() || t2.is_agg() {
                    let t = to_bits(a, t1);
                    from_bits(t, t2)
                } else {
                    // ptrtoint / inttoptr may change width
                    if w1 == w2 {
                        a.clone()
                    } else if w1 > w2 {
                        V::from_t(trunc(a.t(w1), w2))
                    } else {
                        V::from_t(zext(a.t(w1), w2))
                    }
                }
            }
            Cast::Trunc => match a {
                V::C(c) => V::C(c & m64(w2)),
                V::S(t) => V::from_t(trunc(*t, w2)),
                _ => V::Undef,
            },
            Cast::ZExt => match a {
                V::C(c) if w2 <= 64 => V::C(*c),
                v => V::from_t(zext(v.t(w1), w2)),
            },
            Cast::SExt => match a {
                V::C(c) if w2 <= 64 => V::C(sx(*c, w1) as u64 & m64(w2)),
                v => V::from_t(sext(v.t(w1), w2)),
            },
            Cast::UiToFp => V::from_t(fconv(0, a.t(w1), w2)),
            Cast::SiToFp => V::from_t(fconv(1, a.t(w1), w2)),
            Cast::FpToUi => V::from_t(fconv(2, a.t(w1), w2)),
            Cast::FpToSi => V::from_t(fconv(3, a.t(w1), w2)),
            Cast::FpExt => match a {
                V::C(c) => V::C((f32::from_bits(*c as u32) as f64).to_bits()),
                _ => return Err(Stop::Engine("symbolic fpext".into())),
            },
            Cast::FpTrunc => match a {
                V::C(c) => V::C((f64::from_bits(*c) as f32).to_bits() as u64),
                _ => return Err(Stop::Engine("symbolic fptrunc".into())),
            },
        })
    }

    fn call(
        &mut self,
        st: &mut State,
        f: u32,
        argv: Vec<V>,
        args: &[(Ty, O)],
        rt: &Ty,
        dst: u32,
        normal: Option<u32>,
    ) -> X<()> {
        let mut kind = self.kinds[f as usize];
        if kind == FnKind::Unknown {
            kind = crate::intr::classify(&self.p, f);
            self.kinds[f as usize] = kind;
        }
        match kind {
            FnKind::Body => {
                let body = self.p.body(f).map_err(Stop::Engine)?.unwrap();
                self.executed.insert(f);
                if st.frames.len() > 3000 {
                    return Err(Stop::Fail("panic".into(), "stack overflow (recursion depth 3000)".into()));
                }
                let mut regs = vec![V::Undef; body.nregs];
                for (i, v) in argv.into_iter().enumerate().take(body.nargs) {
                    regs[i] = v;
                }
                st.frames.push(Frame {
                    f,
                    body,
                    block: 0,
                    ip: 0,
                    regs,
                    allocas: vec![],
                    ret_dst: dst,
                    normal,
                });
                Ok(())
            }
            FnKind::Panic => {
                let loc = self.panic_site(st);
                Err(Stop::Fail("panic".into(), loc))
            }
            FnKind::AllocFail => Err(Stop::Fail("alloc".into(), "allocation failure".into())),
            FnKind::RetVoid => self.finish_call(st, dst, normal, V::Undef),
            FnKind::FmtNum => {
                // formatting of a symbolic number produces no text, unless asked for
                let cells = self.mem_cells(st, &argv[0], 1);
                if st.format || matches!(cells, Ok(ref c) if c[0].is_con()) {
                    self.kinds[f as usize] = FnKind::Body;
                    let r = self.call(st, f, argv, args, rt, dst, normal);
                    self.kinds[f as usize] = FnKind::FmtNum;
                    return r;
                }
                self.finish_call(st, dst, normal, V::C(0))
            }
            FnKind::Llvm => {
                let v = crate::intr::llvm(self, st, f, &argv, args, rt)?;
                self.finish_call(st, dst, normal, v)
            }
            FnKind::Ext => {
                let v = crate::intr::ext(self, st, f, &argv, args)?;
                self.finish_call(st, dst, normal, v)
            }
            FnKind::Unknown => unreachable!(),
        }
    }
    /// innermost project function on the stack, for panic identification
    pub fn panic_site(&self, st: &State) -> String {
        let mut kind = String::new();
        for fr in st.frames.iter().rev() {
            let n = &self.p.funcs[fr.f as usize].name;
            if n.contains("disc_riider") || n.starts_with("h_") {
                return format!("{} in {}", kind, crate::intr::short(n));
            }
            let s = crate::intr::short(n);
            if kind.is_empty() {
                kind = s;
            }
        }
        kind
    }
}

pub fn slice_segs(segs: &[(u64, Seg)], off: u64, len: u64) -> Vec<(u64, Seg)> {
    let mut out = vec![];
    let end = off + len;
    for (rel, g) in segs {
        let (s, e) = (*rel, *rel + g.len);
        if e <= off || s >= end {
            continue;
        }
        let a = s.max(off);
        let b = e.min(end);
        out.push((a - off, Seg { len: b - a, k: g.k.advance(a - s) }));
    }
    out
}

pub fn show_inputs(v: &[(String, InVal)]) -> String {
    let mut s = String::new();
    for (n, x) in v.iter().take(40) {
        match x {
            InVal::V(k) => s += &format!("{n}={k} "),
            InVal::A(a) => s += &format!("{n}[{} cells] ", a.len()),
        }
    }
    s
}

pub fn cells_val(c: &[Cell], w: u16) -> V {
    // all concrete?
    let n = c.len();
    if c.iter().all(|x| x.is_con()) {
        if w <= 64 {
            let mut r = 0u64;
            for i in (0..n).rev() {
                r = r << 8 | c[i].b as u64;
            }
            return V::C(r & m64(w));
        }
        let mut r = 0u128;
        for i in (0..n).rev() {
            r = r << 8 | c[i].b as u128;
        }
        return V::S(con(r, w));
    }
    if c.iter().all(|x| x.is_undef()) {
        return V::Undef;
    }
    let t0 = c[0].t;
    if t0 != 0 && t0 != crate::mem::UNDEF_T && c[0].b == 0 && width(t0) as usize == n * 8 {
        if c.iter().enumerate().all(|(i, x)| x.t == t0 && x.b as usize == i) {
            let t = if w < n as u16 * 8 { trunc(t0, w) } else { t0 };
            return V::from_t(t);
        }
    }
    let mut t = c[n - 1].term();
    for i in (0..n - 1).rev() {
        t = concat(t, c[i].term());
    }
    if w < n as u16 * 8 {
        t = trunc(t, w);
    }
    V::from_t(t)
}
pub fn val_cells(v: &V, w: u16, out: &mut [Cell]) {
    match v {
        V::C(c) => {
            for (i, o) in out.iter_mut().enumerate() {
                *o = Cell::con(if i < 8 { (c >> (8 * i)) as u8 } else { 0 });
            }
        }
        V::Undef | V::Agg(_) => {
            for o in out.iter_mut() {
                *o = UNDEF;
            }
        }
        V::S(t) => {
            let bw = out.len() as u16 * 8;
            let t = if width(*t) < bw { zext(*t, bw) } else { *t };
            let _ = w;
            if let Some(k) = cval(t) {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = Cell::con((k >> (8 * i)) as u8);
                }
                return;
            }
            for (i, o) in out.iter_mut().enumerate() {
                // keep whole-term cells so that reloads are exact, but resolve constant bytes
                *o = Cell { t, b: i as u8 };
            }
        }
    }
}
pub fn flatten(v: &V, ty: &Ty, off: usize, out: &mut [Cell]) {
    if ty.is_agg() {
        match v {
            V::Agg(x) => {
                if let (Ty::Vec(_, e), true) = (ty, matches!(ty, Ty::Vec(..))) {
                    if e.bits() % 8 != 0 {
                        let t = to_bits(v, ty);
                        let n = ty.store_size() as usize;
                        let vv = V::from_t(t);
                        val_cells(&vv, ty.bits(), &mut out[off..off + n]);
                        return;
                    }
                }
                for (i, e) in x.iter().enumerate() {
                    flatten(e, &ty.elem(i), off + ty.field_off(i) as usize, out);
                }
            }
            _ => {}
        }
    } else {
        let n = ty.store_size() as usize;
        val_cells(v, ty.bits(), &mut out[off..off + n]);
    }
}
pub fn unflatten(ty: &Ty, cells: &[Cell]) -> V {
    if ty.is_agg() {
        V::Agg(Rc::new(
            (0..ty.count())
                .map(|i| {
                    let o = ty.field_off(i) as usize;
                    let e = ty.elem(i);
                    unflatten(&e, &cells[o..o + e.store_size() as usize])
                })
                .collect(),
        ))
    } else {
        cells_val(cells, ty.bits())
    }
}
pub fn to_bits(v: &V, ty: &Ty) -> T {
    match ty {
        Ty::Vec(n, e) | Ty::Arr(n, e) => {
            let w = e.bits();
            match v {
                V::Agg(x) => {
                    let mut t = x[0].t(w);
                    for i in 1..*n as usize {
                        t = concat(x[i].t(w), t);
                    }
                    t
                }
                _ => con(0, w * *n as u16),
            }
        }
        _ => v.t(ty.bits()),
    }
}
pub fn from_bits(t: T, ty: &Ty) -> V {
    match ty {
        Ty::Vec(n, e) | Ty::Arr(n, e) => {
            let w = e.bits();
            V::Agg(Rc::new((0..*n as u16).map(|i| V::from_t(extract(t, i * w, w))).collect()))
        }
        _ => V::from_t(t),
    }
}
pub fn freeze(v: &V, ty: &Ty) -> V {
    match v {
        V::Undef => zero_of(ty),
        V::Agg(x) => V::Agg(Rc::new(x.iter().enumerate().map(|(i, e)| freeze(e, &ty.elem(i))).collect())),
        v => v.clone(),
    }
}
pub fn insert_val(a: V, ty: &Ty, v: V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return v;
    }
    let mut x = match a {
        V::Agg(x) => (*x).clone(),
        _ => (0..ty.count()).map(|_| V::Undef).collect(),
    };
    let i = ix[0] as usize;
    let old = std::mem::replace(&mut x[i], V::Undef);
    x[i] = insert_val(old, &ty.elem(i), v, &ix[1..]);
    V::Agg(Rc::new(x))
}
pub fn select(c: &V, ty: &Ty, a: &V, b: &V) -> V {
    match c {
        V::C(k) => {
            if k & 1 == 1 {
                a.clone()
            } else {
                b.clone()
            }
        }
        V::S(t) => match (a, b) {
            (V::Undef, x) | (x, V::Undef) => x.clone(),
            (V::Agg(x), V::Agg(y)) => V::Agg(Rc::new(
                (0..x.len()).map(|i| select(c, &ty.elem(i), &x[i], &y[i])).collect(),
            )),
            _ => {
                let w = ty.bits();
                V::from_t(ite(*t, a.t(w), b.t(w)))
            }
        },
        _ => V::Undef,
    }
}
pub fn icmp(op: Cmp, w: u16, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (sa, sb) = (sx(x, w), sx(y, w));
        return V::C(match op {
            Cmp::Eq => x == y,
            Cmp::Ne => x != y,
            Cmp::Ugt => x > y,
            Cmp::Uge => x >= y,
            Cmp::Ult => x < y,
            Cmp::Ule => x <= y,
            Cmp::Sgt => sa > sb,
            Cmp::Sge => sa >= sb,
            Cmp::Slt => sa < sb,
            Cmp::Sle => sa <= sb,
        } as u64);
    }
    if matches!(a, V::Undef | V::Agg(_)) || matches!(b, V::Undef | V::Agg(_)) {
        return V::Undef;
    }
    let (x, y) = (a.t(w), b.t(w));
    V::from_t(match op {
        Cmp::Eq => eq(x, y),
        Cmp::Ne => ne(x, y),
        Cmp::Ugt => ult(y, x),
        Cmp::Uge => ule(y, x),
        Cmp::Ult => ult(x, y),
        Cmp::Ule => ule(x, y),
        Cmp::Sgt => slt(y, x),
        Cmp::Sge => sle(y, x),
        Cmp::Slt => slt(x, y),
        Cmp::Sle => sle(x, y),
    })
}

/// prints a term following the branches a model takes (debugging aid)
fn why(m: &Model, t: T, d: usize) {
    let n = node(t);
    let pad = "  ".repeat(d);
    if d > 60 {
        return;
    }
    if n.op == Op::Ite {
        let c = m.eval(n.a);
        eprintln!("{pad}ite {} -> {}", show_d(n.a, 12), c);
        why(m, if c == 1 { n.b } else { n.c }, d + 1);
    } else {
        eprintln!("{pad}{} = {:x}", show_d(t, 4), m.eval(t));
        for c in [n.a, n.b] {
            if c != 0 && matches!(n.op, Op::Eq | Op::Sel | Op::Not | Op::Extract | Op::Or | Op::And) {
                why(m, c, d + 1);
            }
        }
    }
}

impl State {
    /// records a condition known to hold on this path
    pub fn learn(&mut self, c: T) {
        if !self.facts.insert(c) {
            return;
        }
        self.smemo.borrow_mut().clear();
        self.fix_term(c, tru());
        let nc = not(c);
        self.fix_term(nc, fls());
        let n = node(c);
        match n.op {
            Op::And => {
                self.learn(n.a);
                self.learn(n.b);
            }
            Op::Ult => {
                if let Some(k) = cval(n.b) {
                    self.bound(n.a, 0, k - 1);
                }
                if let Some(k) = cval(n.a) {
                    self.bound(n.b, k + 1, u128::MAX);
                }
            }
            Op::Not if node(n.a).op == Op::Ult => {
                let u = node(n.a);
                if let Some(k) = cval(u.b) {
                    self.bound(u.a, k, u128::MAX);
                }
                if let Some(k) = cval(u.a) {
                    self.bound(u.b, 0, k);
                }
            }
            Op::Eq => {
                for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                    if let Some(k) = cval(y) {
                        self.fix_eq(x, k);
                    }
                }
            }
            _ => {}
        }
    }
    /// x is known to lie between lo and hi
    fn bound(&mut self, x: T, lo: u128, hi: u128) {
        let r = self.prng(x, 0);
        let (lo, hi) = (lo.max(r.0), hi.min(r.1));
        if lo > hi {
            return;
        }
        if lo == hi {
            return self.fix_eq(x, lo);
        }
        let n = node(x);
        self.bounds.insert(x, (lo, hi));
        match n.op {
            Op::ZExt => self.bound(n.a, lo, hi),
            Op::Lin => {
                let l = ar().lins[n.k as usize].clone();
                if l.ts.len() == 1 && l.ts[0].1 == 1 && lo >= l.c0 && rng(l.ts[0].0).1.checked_add(l.c0).map_or(false, |m| m <= mask(n.w)) {
                    self.bound(l.ts[0].0, lo - l.c0, hi - l.c0);
                }
            }
            _ => {}
        }
    }
    /// the values t can have, as far as this path knows
    fn prng(&self, t: T, depth: u32) -> (u128, u128) {
        let mut r = rng(t);
        if r.0 == r.1 {
            return r;
        }
        if let Some(v) = self.env.get(&t).and_then(|v| cval(*v)) {
            return (v, v);
        }
        let mut cut = |x: (u128, u128)| {
            let y = (r.0.max(x.0), r.1.min(x.1));
            if y.0 <= y.1 {
                r = y;
            }
        };
        if let Some(&b) = self.bounds.get(&t) {
            cut(b);
        }
        if depth < 4 {
            let n = node(t);
            match n.op {
                Op::ZExt => cut(self.prng(n.a, depth + 1)),
                Op::Ite => {
                    let (a, b) = (self.prng(n.b, depth + 1), self.prng(n.c, depth + 1));
                    cut((a.0.min(b.0), a.1.max(b.1)));
                }
                Op::Lin => {
                    let l = &ar().lins[n.k as usize];
                    let (mut lo, mut hi, mut ok) = (l.c0, l.c0, l.ts.len() <= 4);
                    let m = mask(n.w);
                    // the constant may stand for a negative number
                    let neg = n.w < 128 && l.c0 > m >> 1;
                    let sub = if neg { m - l.c0 + 1 } else { 0 };
                    if neg {
                        lo = 0;
                        hi = 0;
                    }
                    for &(x, k) in &l.ts {
                        let p = self.prng(x, depth + 1);
                        match (p.0.checked_mul(k), p.1.checked_mul(k)) {
                            (Some(a), Some(b)) if a <= m && b <= m => {
                                lo = lo.saturating_add(a);
                                hi = hi.saturating_add(b);
                            }
                            _ => ok = false,
                        }
                    }
                    if ok && hi <= m && lo >= sub {
                        cut((lo - sub, hi - sub));
                    }
                }
                _ => {}
            }
        }
        r
    }
    /// x is known to be k
    pub fn fix_eq(&mut self, x: T, k: u128) {
        let nx = node(x);
        self.smemo.borrow_mut().clear();
        self.fix_term(x, con(k, nx.w));
        match nx.op {
            Op::Lin => {
                let l = ar().lins[nx.k as usize].clone();
                if l.ts.len() == 1 {
                    let (x, f) = l.ts[0];
                    let d = k.wrapping_sub(l.c0) & mask(nx.w);
                    if f == 1 {
                        self.fix_eq(x, d);
                    } else if rng(x).1.checked_mul(f).map_or(false, |p| p <= mask(nx.w)) && d % f == 0 {
                        self.fix_eq(x, d / f);
                    }
                }
            }
            Op::ZExt if k <= mask(width(nx.a)) => self.fix_eq(nx.a, k),
            _ => {}
        }
    }
    fn fix_term(&mut self, x: T, v: T) {
        if cval(x).is_none() {
            self.env.insert(x, v);
        }
    }
    /// t rewritten with what this path knows
    pub fn simp(&self, t: T) -> T {
        if (self.env.is_empty() && self.bounds.is_empty()) || cval(t).is_some() {
            return t;
        }
        let mut left = 300;
        self.simp_rec(t, &mut left).unwrap_or(t)
    }
    pub fn simp_v(&self, v: &V) -> V {
        match v {
            V::S(t) => V::from_t(self.simp(*t)),
            v => v.clone(),
        }
    }
    /// choices this path has settled disappear from values that live on
    fn tidy(&self, v: &mut V) {
        if let V::S(t) = v {
            let n = node(*t);
            if n.w >= 32 && matches!(n.op, Op::Ite | Op::Lin) {
                *v = V::from_t(self.simp(*t));
            }
        }
    }
    /// decides comparisons from what is known about their sides
    fn cmp_known(&self, t: T) -> T {
        let n = node(t);
        if self.bounds.is_empty() {
            return t;
        }
        match n.op {
            Op::Ult => {
                let (a, b) = (self.prng(n.a, 0), self.prng(n.b, 0));
                if a.1 < b.0 {
                    return tru();
                }
                if a.0 >= b.1 {
                    return fls();
                }
                // x - c compared with a constant, where x is known not to be below c
                for (s, k, left) in [(n.a, n.b, true), (n.b, n.a, false)] {
                    let ns = node(s);
                    let (Op::Lin, Some(k)) = (ns.op, cval(k)) else { continue };
                    let l = ar().lins[ns.k as usize].clone();
                    let m = mask(ns.w);
                    if l.c0 <= m >> 1 || ns.w > 100 {
                        continue;
                    }
                    let sub = m - l.c0 + 1;
                    let base = mk_lin(0, l.ts.clone(), ns.w);
                    if self.prng(base, 0).0 >= sub && k + sub <= m {
                        let k = con(k + sub, ns.w);
                        let r = if left { ult(base, k) } else { ult(k, base) };
                        return if r != t && node(r).op == Op::Ult { self.cmp_known(r) } else { r };
                    }
                }
            }
            Op::Eq => {
                let (a, b) = (self.prng(n.a, 0), self.prng(n.b, 0));
                if a.1 < b.0 || b.1 < a.0 {
                    return fls();
                }
            }
            _ => {}
        }
        t
    }
    fn simp_rec(&self, t: T, left: &mut i32) -> Option<T> {
        let n = node(t);
        if n.op == Op::Const {
            return Some(t);
        }
        if let Some(&v) = self.env.get(&t) {
            return Some(v);
        }
        if n.op == Op::Var {
            return Some(t);
        }
        if let Some(&v) = self.smemo.borrow().get(&t) {
            return Some(v);
        }
        *left -= 1;
        if *left < 0 {
            return None;
        }
        let r = match n.op {
            Op::Lin => {
                let l = ar().lins[n.k as usize].clone();
                let mut ch = false;
                let mut ts = Vec::with_capacity(l.ts.len());
                for &(x, k) in &l.ts {
                    let y = self.simp_rec(x, left)?;
                    ch |= x != y;
                    ts.push((y, k));
                }
                if ch {
                    let mut s = con(l.c0, n.w);
                    for (y, k) in ts {
                        s = add(s, mulc(y, k));
                    }
                    s
                } else {
                    t
                }
            }
            Op::Ite => {
                let c = self.simp_rec(n.a, left)?;
                match cval(c) {
                    Some(1) => self.simp_rec(n.b, left)?,
                    Some(_) => self.simp_rec(n.c, left)?,
                    None => {
                        let (a, b) = (self.simp_rec(n.b, left)?, self.simp_rec(n.c, left)?);
                        if (c, a, b) == (n.a, n.b, n.c) {
                            t
                        } else {
                            ite(c, a, b)
                        }
                    }
                }
            }
            _ => {
                let a = if n.a != 0 { self.simp_rec(n.a, left)? } else { 0 };
                let b = if n.b != 0 { self.simp_rec(n.b, left)? } else { 0 };
                if (a, b) == (n.a, n.b) {
                    t
                } else {
                    match n.op {
                        Op::Sel => sel(n.k as u32, a),
                        Op::Mul => mul(a, b),
                        Op::UDiv => udiv(a, b),
                        Op::URem => urem(a, b),
                        Op::SDiv => sdiv(a, b),
                        Op::SRem => srem(a, b),
                        Op::And => and(a, b),
                        Op::Or => or(a, b),
                        Op::Xor => xor(a, b),
                        Op::Not => not(a),
                        Op::Shl => shl(a, b),
                        Op::LShr => lshr(a, b),
                        Op::AShr => ashr(a, b),
                        Op::Concat => concat(a, b),
                        Op::Extract => extract(a, n.k as u16, n.w),
                        Op::ZExt => zext(a, n.w),
                        Op::SExt => sext(a, n.w),
                        Op::Eq => eq(a, b),
                        Op::Ult => ult(a, b),
                        Op::Slt => slt(a, b),
                        Op::FBin => fbin(n.k as u8, a, b),
                        Op::FConv => fconv(n.k as u8, a, n.w),
                        Op::FCmp => fcmp(n.k as u8, a, b),
                        _ => t,
                    }
                }
            }
        };
        let r = if r != t { self.env.get(&r).copied().unwrap_or(r) } else { r };
        let r = self.cmp_known(r);
        self.smemo.borrow_mut().insert(t, r);
        Some(r)
    }
}
