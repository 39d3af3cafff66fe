//! Parser for the textual LLVM IR of the whole program (harness + repository + std).
//! Function bodies and global initialisers are parsed on first use.
use crate::term::{self, T};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        let s = self.store_size();
        let a = self.align();
        (s + a - 1) / a * a
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => (self.size() * 8) as u16,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Struct(ts, _) => ts[i].clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(ts, _) => ts.len(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
}

/// Runtime value.  `C` holds every constant of width <= 64; `S` any other term.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(T),
    Agg(Rc<Vec<V>>),
    Undef,
}

impl V {
    #[inline]
    pub fn from_t(t: T) -> V {
        let n = term::node(t);
        if n.op == term::Op::Const && n.w <= 64 {
            V::C(n.k as u64)
        } else {
            V::S(t)
        }
    }
    #[inline]
    pub fn t(&self, w: u16) -> T {
        match self {
            V::C(c) => term::con(*c as u128, w),
            V::S(t) => *t,
            V::Undef => term::con(0, w),
            V::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(O),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, O, O),
    ICmp(Cmp, Ty, O, O),
    FCmp(String, Ty, O, O),
    FNeg(Ty, O),
    Cast(Cast, Ty, O, Ty),
    Gep(O, i64, Vec<(O, u16, i64)>),
    Load(Ty, O),
    Store(Ty, O, O),
    Alloca(u64, u64, Option<(O, u16)>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u16, u32, Vec<(u64, u32)>),
    Ret(Option<O>),
    Unreachable,
    Call(Callee, Vec<(Ty, O)>, Ty, Option<u32>),
    Select(O, Ty, O, O, bool),
    ExtractValue(O, Vec<u32>),
    InsertValue(O, Ty, O, Vec<u32>),
    ExtractElement(O, O, u16),
    InsertElement(O, Ty, O, O, u16),
    Shuffle(Ty, O, O, Vec<i64>),
    Freeze(Ty, O),
    AtomicRmw(String, Ty, O, O),
    CmpXchg(Ty, O, O, O),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub dst: u32,
    pub i: I,
}
pub const NOREG: u32 = u32::MAX;

#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Body {
    pub nargs: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub addr: u64,
    pub text: Option<(usize, usize, usize)>, // header line start, body start, body end (byte offsets)
    pub body: Option<Rc<Body>>,
    pub vararg: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub ty: Ty,
    pub is_const: bool,
    pub init: Option<(usize, usize)>,
}

pub struct Prog {
    pub src: String,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub named: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GLOBAL_BASE: u64 = 0x4000_0000;

struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}

type R<X> = Result<X, String>;

const CONST_WORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr",
    "ptrtoint", "ptrtoaddr", "splat", "bitcast", "trunc", "add", "sub", "xor", "dso_local_equivalent", "no_cfi",
    "asm", "addrspacecast", "metadata", "mul", "shl",
];

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn pk(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.pk() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at ...{}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + 60).min(self.s.len())]).into_owned()
    }
    fn is_word(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+'
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && Self::is_word(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let s = self.i;
        if self.word() == w {
            true
        } else {
            self.i = s;
            false
        }
    }
    /// identifier after % or @ (sigil already consumed)
    fn ident(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            return r;
        }
        self.word().to_string()
    }
    fn skip_balanced(&mut self) {
        // at '(' / '[' / '{'
        let mut d = 0i32;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn string(&mut self) -> Vec<u8> {
        // at '"'
        self.i += 1;
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn int(&mut self) -> R<i128> {
        let w = self.word();
        w.parse::<i128>().map_err(|_| format!("bad int {w:?} at {}", self.rest()))
    }
}

fn is_int_ty(w: &str) -> Option<u16> {
    if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

pub fn konst(v: u128, w: u16) -> V {
    if w <= 64 {
        V::C((v & term::mask(w)) as u64)
    } else {
        V::S(term::con(v, w))
    }
}

pub fn zero_of(ty: &Ty) -> V {
    if ty.is_agg() {
        V::Agg(Rc::new((0..ty.count()).map(|i| zero_of(&ty.elem(i))).collect()))
    } else {
        konst(0, ty.bits())
    }
}
pub fn undef_of(ty: &Ty) -> V {
    if ty.is_agg() && ty.count() <= 4096 {
        V::Agg(Rc::new((0..ty.count()).map(|i| undef_of(&ty.elem(i))).collect()))
    } else {
        V::Undef
    }
}

impl Prog {
    pub fn load(src: String) -> R<Prog> {
        let mut p = Prog {
            src,
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            named: HashMap::new(),
            aliases: HashMap::new(),
        };
        let src = std::mem::take(&mut p.src);
        let b = src.as_bytes();
        let mut i = 0;
        let mut glob: Vec<(usize, usize)> = vec![];
        while i < b.len() {
            let e = memchr(b, b'\n', i);
            let line = &src[i..e];
            match b[i] {
                b'@' => glob.push((i, e)),
                b'd' if line.starts_with("define ") => {
                    // body until a line that is exactly "}"
                    let mut j = e + 1;
                    loop {
                        let k = memchr(b, b'\n', j);
                        if &src[j..k] == "}" {
                            break;
                        }
                        j = k + 1;
                        if j >= b.len() {
                            return Err("unterminated function".into());
                        }
                    }
                    let name = Self::fn_name(line)?;
                    p.add_fn(name, Some((i, e + 1, j)), line.contains("...)"));
                    i = j + 2;
                    continue;
                }
                b'd' if line.starts_with("declare ") => {
                    let name = Self::fn_name(line)?;
                    p.add_fn(name, None, line.contains("...)"));
                }
                b'%' => {
                    let mut c = Cur::new(line);
                    c.i = 1;
                    let n = c.ident();
                    c.want(b'=')?;
                    c.word();
                    let t = p.ty(&mut c)?;
                    p.named.insert(n, t);
                }
                _ => {}
            }
            i = e + 1;
        }
        let mut addr = GLOBAL_BASE;
        for (s, e) in glob {
            let mut c = Cur::new(&src[s..e]);
            c.i = 1;
            let name = c.ident();
            c.want(b'=')?;
            let mut ext = false;
            let mut tls = false;
            let is_const;
            loop {
                let w = c.word();
                match w {
                    "global" => {
                        is_const = false;
                        break;
                    }
                    "constant" => {
                        is_const = true;
                        break;
                    }
                    "alias" => {
                        is_const = false;
                        break;
                    }
                    "external" | "extern_weak" | "available_externally" => ext = w != "available_externally",
                    "thread_local" => {
                        tls = true;
                        if c.pk() == b'(' {
                            c.skip_balanced();
                        }
                    }
                    "" => return Err(format!("bad global {}", &src[s..e.min(s + 200)])),
                    _ => {
                        if c.pk() == b'(' {
                            c.skip_balanced();
                        }
                    }
                }
            }
            let _ = tls;
            if src[s..e].contains(" alias ") {
                let mut c2 = Cur::new(&src[s..e]);
                c2.i = src[s..e].rfind('@').unwrap() + 1;
                let target = c2.ident();
                p.aliases.insert(name, target);
                continue;
            }
            let ty = p.ty(&mut c)?;
            let size = ty.size();
            let a = 64u64.max(ty.align());
            addr = (addr + a - 1) / a * a;
            let gi = p.globals.len() as u32;
            p.gidx.insert(name.clone(), gi);
            p.globals.push(Global {
                name,
                addr,
                size,
                ty,
                is_const,
                init: if ext { None } else { Some((s + c.i, e)) },
            });
            addr += size + 64;
        }
        p.src = src;
        Ok(p)
    }
    fn fn_name(line: &str) -> R<String> {
        // first '@' outside quotes and parens of attributes
        let at = line.find('@').ok_or("no function name")?;
        let mut c = Cur::new(line);
        c.i = at + 1;
        Ok(c.ident())
    }
    fn add_fn(&mut self, name: String, text: Option<(usize, usize, usize)>, vararg: bool) {
        let i = self.funcs.len() as u32;
        self.fidx.insert(name.clone(), i);
        self.funcs.push(Func { name, addr: FN_BASE + i as u64 * 16, text, body: None, vararg });
    }
    pub fn addr_of(&self, name: &str) -> R<u64> {
        if let Some(&i) = self.fidx.get(name) {
            return Ok(self.funcs[i as usize].addr);
        }
        if let Some(&i) = self.gidx.get(name) {
            return Ok(self.globals[i as usize].addr);
        }
        if let Some(a) = self.aliases.get(name) {
            return self.addr_of(a);
        }
        Err(format!("unknown global @{name}"))
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr >= FN_BASE && addr < FN_BASE + 16 * self.funcs.len() as u64 && (addr - FN_BASE) % 16 == 0 {
            Some(((addr - FN_BASE) / 16) as u32)
        } else {
            None
        }
    }
    fn ty(&self, c: &mut Cur) -> R<Ty> {
        match c.pk() {
            b'[' => {
                c.i += 1;
                let n = c.int()? as u64;
                if !c.eat_word("x") {
                    return Err("array type".into());
                }
                let t = self.ty(c)?;
                c.want(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'{' => {
                c.i += 1;
                let mut v = vec![];
                if !c.eat(b'}') {
                    loop {
                        v.push(self.ty(c)?);
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.want(b'}')?;
                }
                Ok(Ty::Struct(Rc::new(v), false))
            }
            b'<' => {
                c.i += 1;
                if c.eat(b'{') {
                    let mut v = vec![];
                    if !c.eat(b'}') {
                        loop {
                            v.push(self.ty(c)?);
                            if !c.eat(b',') {
                                break;
                            }
                        }
                        c.want(b'}')?;
                    }
                    c.want(b'>')?;
                    Ok(Ty::Struct(Rc::new(v), true))
                } else {
                    let n = c.int()? as u64;
                    if !c.eat_word("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty(c)?;
                    c.want(b'>')?;
                    Ok(Ty::Vec(n, Rc::new(t)))
                }
            }
            b'%' => {
                c.i += 1;
                let n = c.ident();
                self.named.get(&n).cloned().ok_or(format!("type %{n}"))
            }
            _ => {
                let w = c.word();
                if let Some(n) = is_int_ty(w) {
                    return Ok(Ty::Int(n));
                }
                Ok(match w {
                    "ptr" => {
                        if c.peek_word() == "addrspace" {
                            c.word();
                            c.ws();
                            c.skip_balanced();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "opaque" | "x86_fp80" | "fp128" | "half" | "bfloat" => Ty::Other,
                    _ => return Err(format!("type {w:?} at {}", c.rest())),
                })
            }
        }
    }
    fn skip_attrs(&self, c: &mut Cur) {
        loop {
            match c.pk() {
                b'"' => {
                    c.string();
                    if c.eat(b'=') {
                        c.pk();
                        c.string();
                    }
                }
                b'#' => {
                    c.i += 1;
                    c.word();
                }
                _ => {
                    let s = c.i;
                    let w = c.word();
                    if w.is_empty()
                        || CONST_WORDS.contains(&w)
                        || w.as_bytes()[0].is_ascii_digit()
                        || w.as_bytes()[0] == b'-'
                        || is_int_ty(w).is_some()
                        || matches!(w, "ptr" | "void" | "float" | "double" | "label" | "c")
                        || w.starts_with("f0x")
                        || w.starts_with("0x")
                    {
                        c.i = s;
                        return;
                    }
                    if w == "align" && c.pk() != b'(' {
                        c.word();
                    } else if c.i < c.s.len() && c.s[c.i] == b'(' {
                        c.skip_balanced();
                    }
                }
            }
        }
    }
    /// constant of the given type
    fn konst(&self, c: &mut Cur, ty: &Ty) -> R<V> {
        match c.pk() {
            b'@' => {
                c.i += 1;
                let n = c.ident();
                return Ok(V::C(self.addr_of(&n)?));
            }
            b'[' | b'{' => {
                let close = if c.pk() == b'[' { b']' } else { b'}' };
                c.i += 1;
                let mut v = vec![];
                if !c.eat(close) {
                    loop {
                        let t = self.ty(c)?;
                        v.push(self.konst(c, &t)?);
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.want(close)?;
                }
                return Ok(V::Agg(Rc::new(v)));
            }
            b'<' => {
                c.i += 1;
                let packed = c.eat(b'{');
                let mut v = vec![];
                if !(packed && c.eat(b'}')) {
                    loop {
                        let t = self.ty(c)?;
                        v.push(self.konst(c, &t)?);
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    if packed {
                        c.want(b'}')?;
                    }
                }
                c.want(b'>')?;
                return Ok(V::Agg(Rc::new(v)));
            }
            b'!' => return Err("metadata constant".into()),
            _ => {}
        }
        let w = c.word();
        match w {
            "true" => return Ok(V::C(1)),
            "false" | "null" => return Ok(V::C(0)),
            "none" => return Ok(V::C(0)),
            "undef" | "poison" => return Ok(undef_of(ty)),
            "zeroinitializer" => return Ok(zero_of(ty)),
            "c" => {
                c.pk();
                let s = c.string();
                return Ok(V::Agg(Rc::new(s.into_iter().map(|b| V::C(b as u64)).collect())));
            }
            "splat" => {
                c.want(b'(')?;
                let t = self.ty(c)?;
                let v = self.konst(c, &t)?;
                c.want(b')')?;
                return Ok(V::Agg(Rc::new(vec![v; ty.count()])));
            }
            "dso_local_equivalent" | "no_cfi" => return self.konst(c, ty),
            "getelementptr" => {
                while c.pk() != b'(' {
                    let w = c.word();
                    if w.is_empty() {
                        return Err("gep const".into());
                    }
                    if w == "inrange" {
                        c.pk();
                        c.skip_balanced();
                    }
                }
                c.want(b'(')?;
                let ety = self.ty(c)?;
                c.want(b',')?;
                let pt = self.ty(c)?;
                let base = self.konst(c, &pt)?;
                let mut idx = vec![];
                while c.eat(b',') {
                    let t = self.ty(c)?;
                    let v = self.konst(c, &t)?;
                    idx.push((O::K(v), t.bits()));
                }
                c.want(b')')?;
                let (off, var) = gep_layout(&ety, &idx)?;
                if !var.is_empty() {
                    return Err("symbolic const gep".into());
                }
                return match base {
                    V::C(b) => Ok(V::C(b.wrapping_add(off as u64))),
                    _ => Err("gep const base".into()),
                };
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                c.want(b'(')?;
                let t = self.ty(c)?;
                let v = self.konst(c, &t)?;
                if !c.eat_word("to") {
                    return Err("const cast".into());
                }
                let t2 = self.ty(c)?;
                c.want(b')')?;
                return match v {
                    V::C(x) => Ok(konst(x as u128, t2.bits())),
                    v => Ok(v),
                };
            }
            "add" | "sub" | "xor" | "mul" | "shl" => {
                while c.pk() != b'(' {
                    c.word();
                }
                c.want(b'(')?;
                let t = self.ty(c)?;
                let a = self.konst(c, &t)?;
                c.want(b',')?;
                let t = self.ty(c)?;
                let b = self.konst(c, &t)?;
                c.want(b')')?;
                return match (a, b) {
                    (V::C(a), V::C(b)) => Ok(konst(
                        match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            "shl" => a << (b & 63),
                            _ => a ^ b,
                        } as u128,
                        t.bits(),
                    )),
                    _ => Err("const expr".into()),
                };
            }
            _ => {}
        }
        match ty {
            Ty::Int(n) => {
                if let Ok(v) = w.parse::<i128>() {
                    return Ok(konst(v as u128, *n));
                }
                if let Ok(v) = w.parse::<u128>() {
                    return Ok(konst(v, *n));
                }
                for pre in ["u0x", "s0x", "0x"] {
                    if let Some(h) = w.strip_prefix(pre) {
                        if let Ok(v) = u128::from_str_radix(h, 16) {
                            return Ok(konst(v, *n));
                        }
                    }
                }
                Err(format!("int constant {w:?}"))
            }
            Ty::F32 | Ty::F64 => {
                let hex = w.strip_prefix("f0x").map(|h| (h, true)).or(w.strip_prefix("0x").map(|h| (h, false)));
                let bits64;
                if let Some((h, exact)) = hex {
                    let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                    if exact && *ty == Ty::F32 {
                        return Ok(V::C(v));
                    }
                    bits64 = v;
                } else {
                    bits64 = w.parse::<f64>().map_err(|_| format!("float {w:?}"))?.to_bits();
                }
                Ok(if *ty == Ty::F32 {
                    V::C((f64::from_bits(bits64) as f32).to_bits() as u64)
                } else {
                    V::C(bits64)
                })
            }
            _ => Err(format!("constant {w:?} of type {ty:?} at {}", c.rest())),
        }
    }

    pub fn global_init(&self, gi: u32) -> R<Option<V>> {
        let g = &self.globals[gi as usize];
        match g.init {
            None => Ok(None),
            Some((s, e)) => {
                let mut c = Cur::new(&self.src[s..e]);
                Ok(Some(self.konst(&mut c, &g.ty)?))
            }
        }
    }

    pub fn body(&mut self, f: u32) -> R<Option<Rc<Body>>> {
        if let Some(b) = &self.funcs[f as usize].body {
            return Ok(Some(b.clone()));
        }
        let Some((h, s, e)) = self.funcs[f as usize].text else {
            return Ok(None);
        };
        let b = Rc::new(self.parse_body(h, s, e).map_err(|m| format!("in {}: {m}", self.funcs[f as usize].name))?);
        self.funcs[f as usize].body = Some(b.clone());
        Ok(Some(b))
    }

    fn parse_body(&self, h: usize, s: usize, e: usize) -> R<Body> {
        let head = &self.src[h..s - 1];
        let mut fb = FB { p: self, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        // arguments
        let at = head.find('@').unwrap();
        let mut c = Cur::new(head);
        c.i = at + 1;
        c.ident();
        c.want(b'(')?;
        let mut nargs = 0;
        let mut unnamed = 0;
        if !c.eat(b')') {
            loop {
                if c.pk() == b'.' {
                    c.word();
                    break;
                }
                self.ty(&mut c)?;
                self.skip_attrs(&mut c);
                if c.eat(b'%') {
                    let n = c.ident();
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed = n.parse::<u32>().unwrap() + 1;
                    }
                    let r = fb.reg(&n);
                    debug_assert_eq!(r as usize, nargs);
                } else {
                    fb.reg(&format!("!arg{nargs}"));
                }
                nargs += 1;
                if !c.eat(b',') {
                    break;
                }
            }
        }
        // join logical lines
        let text = &self.src[s..e];
        let mut lines: Vec<String> = vec![];
        let mut in_switch = false;
        for l in text.lines() {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') {
                continue;
            }
            if in_switch {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                if t.starts_with(']') {
                    in_switch = false;
                }
                continue;
            }
            if (t.starts_with("to label") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter "))
                && l.starts_with("   ")
            {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                continue;
            }
            if t.starts_with("switch ") && t.ends_with('[') {
                in_switch = true;
            }
            lines.push(l.to_string());
        }
        // split into blocks
        let mut blocks: Vec<Block> = vec![];
        let mut raw: Vec<(u32, Vec<String>)> = vec![];
        for l in lines {
            if !l.starts_with(' ') {
                // label
                let mut c = Cur::new(&l);
                let name = c.ident();
                if c.pk() != b':' {
                    return Err(format!("label {l}"));
                }
                let id = fb.block(&name);
                raw.push((id, vec![]));
            } else {
                if raw.is_empty() {
                    let id = fb.block(&unnamed.to_string());
                    raw.push((id, vec![]));
                }
                raw.last_mut().unwrap().1.push(l);
            }
        }
        let mut parsed: Vec<(u32, Block)> = vec![];
        for (id, ls) in raw {
            let mut b = Block::default();
            for l in ls {
                fb.instr(&l, &mut b).map_err(|m| format!("{m}: {}", l.trim()))?;
            }
            parsed.push((id, b));
        }
        for _ in 0..fb.nblocks {
            blocks.push(Block::default());
        }
        for (id, b) in parsed {
            blocks[id as usize] = b;
        }
        Ok(Body { nargs, nregs: fb.regs.len(), blocks })
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}

pub fn gep_layout(ety: &Ty, idx: &[(O, u16)]) -> R<(i64, Vec<(O, u16, i64)>)> {
    let mut off = 0i64;
    let mut var = vec![];
    let mut cur = ety.clone();
    for (n, (o, w)) in idx.iter().enumerate() {
        let scale;
        if n == 0 {
            scale = cur.size() as i64;
        } else {
            match &cur {
                Ty::Struct(..) => {
                    let O::K(V::C(k)) = o else { return Err("struct gep index".into()) };
                    off += cur.field_off(*k as usize) as i64;
                    cur = cur.elem(*k as usize);
                    continue;
                }
                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                    let t = (**t).clone();
                    scale = t.size() as i64;
                    cur = t;
                }
                _ => return Err("gep into scalar".into()),
            }
        }
        match o {
            O::K(V::C(k)) => {
                let k = if *w >= 64 { *k as i64 } else { ((*k << (64 - w)) as i64) >> (64 - w) };
                off = off.wrapping_add(k.wrapping_mul(scale));
            }
            _ => var.push((o.clone(), *w, scale)),
        }
    }
    Ok((off, var))
}

struct FB<'a> {
    p: &'a Prog,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
}

impl<'a> FB<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, c: &mut Cur, ty: &Ty) -> R<O> {
        if c.pk() == b'%' {
            c.i += 1;
            let n = c.ident();
            return Ok(O::R(self.reg(&n)));
        }
        Ok(O::K(self.p.konst(c, ty)?))
    }
    fn tyop(&mut self, c: &mut Cur) -> R<(Ty, O)> {
        let t = self.p.ty(c)?;
        let o = self.op(c, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, c: &mut Cur) -> R<u32> {
        if !c.eat_word("label") {
            return Err("label".into());
        }
        c.want(b'%')?;
        let n = c.ident();
        Ok(self.block(&n))
    }
    fn flags(&self, c: &mut Cur) {
        loop {
            let s = c.i;
            let w = c.word();
            match w {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf"
                | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inrange" => {
                    if w == "inrange" {
                        c.pk();
                        c.skip_balanced();
                    }
                }
                _ => {
                    c.i = s;
                    return;
                }
            }
        }
    }
    fn instr(&mut self, l: &str, b: &mut Block) -> R<()> {
        let mut c = Cur::new(l);
        let mut dst = NOREG;
        if c.pk() == b'%' {
            c.i += 1;
            let n = c.ident();
            c.want(b'=')?;
            dst = self.reg(&n);
        }
        let c = &mut c;
        let mut w = c.word();
        if matches!(w, "tail" | "musttail" | "notail") {
            w = c.word();
        }
        let p = self.p;
        let bin = |w: &str| -> Option<Bin> {
            Some(match w {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                "frem" => Bin::FRem,
                _ => return None,
            })
        };
        let cast = |w: &str| -> Option<Cast> {
            Some(match w {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" => Cast::BitCast,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "fpext" => Cast::FpExt,
                "fptrunc" => Cast::FpTrunc,
                _ => return None,
            })
        };
        let i = if let Some(k) = bin(w) {
            self.flags(c);
            let (t, a) = self.tyop(c)?;
            c.want(b',')?;
            let bo = self.op(c, &t)?;
            I::Bin(k, t, a, bo)
        } else if let Some(k) = cast(w) {
            self.flags(c);
            let (t, a) = self.tyop(c)?;
            if !c.eat_word("to") {
                return Err("cast".into());
            }
            let t2 = p.ty(c)?;
            I::Cast(k, t, a, t2)
        } else {
            match w {
                "icmp" => {
                    self.flags(c);
                    let pr = match c.word() {
                        "eq" => Cmp::Eq,
                        "ne" => Cmp::Ne,
                        "ugt" => Cmp::Ugt,
                        "uge" => Cmp::Uge,
                        "ult" => Cmp::Ult,
                        "ule" => Cmp::Ule,
                        "sgt" => Cmp::Sgt,
                        "sge" => Cmp::Sge,
                        "slt" => Cmp::Slt,
                        "sle" => Cmp::Sle,
                        x => return Err(format!("icmp {x}")),
                    };
                    let (t, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let bo = self.op(c, &t)?;
                    I::ICmp(pr, t, a, bo)
                }
                "fcmp" => {
                    self.flags(c);
                    let pr = c.word().to_string();
                    let (t, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let bo = self.op(c, &t)?;
                    I::FCmp(pr, t, a, bo)
                }
                "fneg" => {
                    self.flags(c);
                    let (t, a) = self.tyop(c)?;
                    I::FNeg(t, a)
                }
                "getelementptr" => {
                    self.flags(c);
                    let ety = p.ty(c)?;
                    c.want(b',')?;
                    let (pt, base) = self.tyop(c)?;
                    let mut idx = vec![];
                    let mut bad = pt != Ty::Ptr;
                    while c.eat(b',') {
                        if c.pk() == b'!' {
                            break;
                        }
                        let (t, o) = self.tyop(c)?;
                        bad |= t.is_agg();
                        idx.push((o, t.bits()));
                    }
                    if bad {
                        I::Unsupported("vector gep".into())
                    } else {
                        let (off, var) = gep_layout(&ety, &idx)?;
                        I::Gep(base, off, var)
                    }
                }
                "load" => {
                    self.flags(c);
                    let t = p.ty(c)?;
                    c.want(b',')?;
                    let (_, a) = self.tyop(c)?;
                    I::Load(t, a)
                }
                "store" => {
                    self.flags(c);
                    let (t, v) = self.tyop(c)?;
                    c.want(b',')?;
                    let (_, a) = self.tyop(c)?;
                    I::Store(t, v, a)
                }
                "alloca" => {
                    if c.peek_word() == "inalloca" {
                        c.word();
                    }
                    let t = p.ty(c)?;
                    let mut n = None;
                    let mut al = t.align();
                    while c.eat(b',') {
                        if c.eat_word("align") {
                            al = c.int()? as u64;
                        } else if c.pk() == b'!' {
                            break;
                        } else {
                            let (t, o) = self.tyop(c)?;
                            n = Some((o, t.bits()));
                        }
                    }
                    I::Alloca(t.size(), al, n)
                }
                "br" => {
                    if c.peek_word() == "label" {
                        I::Br(self.label(c)?)
                    } else {
                        let (_, o) = self.tyop(c)?;
                        c.want(b',')?;
                        let t = self.label(c)?;
                        c.want(b',')?;
                        let f = self.label(c)?;
                        I::CondBr(o, t, f)
                    }
                }
                "switch" => {
                    let (t, o) = self.tyop(c)?;
                    c.want(b',')?;
                    let d = self.label(c)?;
                    c.want(b'[')?;
                    let mut cs = vec![];
                    while c.pk() != b']' {
                        let (_, k) = self.tyop(c)?;
                        c.want(b',')?;
                        let l = self.label(c)?;
                        let O::K(V::C(k)) = k else { return Err("switch case".into()) };
                        cs.push((k, l));
                    }
                    I::Switch(o, t.bits(), d, cs)
                }
                "ret" => {
                    let t = p.ty(c)?;
                    if t == Ty::Void {
                        I::Ret(None)
                    } else {
                        I::Ret(Some(self.op(c, &t)?))
                    }
                }
                "unreachable" | "resume" => I::Unreachable,
                "landingpad" => I::Unreachable,
                "fence" => I::Nop,
                "phi" => {
                    self.flags(c);
                    let t = p.ty(c)?;
                    let mut v = vec![];
                    loop {
                        c.want(b'[')?;
                        let o = self.op(c, &t)?;
                        c.want(b',')?;
                        c.want(b'%')?;
                        let n = c.ident();
                        c.want(b']')?;
                        v.push((self.block(&n), o));
                        if !c.eat(b',') {
                            break;
                        }
                        if c.pk() == b'!' {
                            break;
                        }
                    }
                    b.phis.push((dst, v));
                    return Ok(());
                }
                "select" => {
                    self.flags(c);
                    let (ct, co) = self.tyop(c)?;
                    c.want(b',')?;
                    let (t, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let (_, bo) = self.tyop(c)?;
                    I::Select(co, t, a, bo, ct.is_agg())
                }
                "extractvalue" => {
                    let (_, a) = self.tyop(c)?;
                    let mut ix = vec![];
                    while c.eat(b',') {
                        if c.pk() == b'!' {
                            break;
                        }
                        ix.push(c.int()? as u32);
                    }
                    I::ExtractValue(a, ix)
                }
                "insertvalue" => {
                    let (t, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let (_, v) = self.tyop(c)?;
                    let mut ix = vec![];
                    while c.eat(b',') {
                        if c.pk() == b'!' {
                            break;
                        }
                        ix.push(c.int()? as u32);
                    }
                    I::InsertValue(a, t, v, ix)
                }
                "extractelement" => {
                    let (_, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let (t, i) = self.tyop(c)?;
                    I::ExtractElement(a, i, t.bits())
                }
                "insertelement" => {
                    let (t, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let (_, v) = self.tyop(c)?;
                    c.want(b',')?;
                    let (it, i) = self.tyop(c)?;
                    I::InsertElement(a, t, v, i, it.bits())
                }
                "shufflevector" => {
                    let (t, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let (_, bo) = self.tyop(c)?;
                    c.want(b',')?;
                    let (_, m) = self.tyop(c)?;
                    let O::K(V::Agg(m)) = m else { return Err("shuffle mask".into()) };
                    I::Shuffle(
                        t,
                        a,
                        bo,
                        m.iter()
                            .map(|v| match v {
                                V::C(k) => *k as i64,
                                _ => -1,
                            })
                            .collect(),
                    )
                }
                "freeze" => {
                    let (t, a) = self.tyop(c)?;
                    I::Freeze(t, a)
                }
                "atomicrmw" => {
                    self.flags(c);
                    let op = c.word().to_string();
                    let (_, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let (t, v) = self.tyop(c)?;
                    I::AtomicRmw(op, t, a, v)
                }
                "cmpxchg" => {
                    self.flags(c);
                    let (_, a) = self.tyop(c)?;
                    c.want(b',')?;
                    let (t, x) = self.tyop(c)?;
                    c.want(b',')?;
                    let (_, y) = self.tyop(c)?;
                    I::CmpXchg(t, a, x, y)
                }
                "call" | "invoke" => {
                    self.flags(c);
                    p.skip_attrs(c);
                    let rt = p.ty(c)?;
                    p.skip_attrs(c);
                    if c.pk() == b'(' {
                        c.skip_balanced();
                    }
                    let mut normal = None;
                    if c.peek_word() == "asm" {
                        if w == "invoke" {
                            return Err("asm invoke".into());
                        }
                        // empty asm with sideeffect is a compiler barrier
                        let line = std::str::from_utf8(c.s).unwrap_or("");
                        if line.contains(" \"\"") || (line.contains(" \"/*") && line.contains("*/\"") && rt == Ty::Void) {
                            I::Nop
                        } else if line.contains("cpuid") {
                            // no optional CPU features
                            I::Freeze(rt.clone(), O::K(V::Agg(std::rc::Rc::new(vec![V::C(0); 4]))))
                        } else {
                            I::Unsupported("inline asm".into())
                        }
                    } else {
                        let callee = if c.eat(b'%') {
                            let n = c.ident();
                            Callee::Ind(O::R(self.reg(&n)))
                        } else if c.pk() == b'@' {
                            c.i += 1;
                            let n = c.ident();
                            let a = p.addr_of(&n)?;
                            match p.fn_at(a) {
                                Some(f) => Callee::Fn(f),
                                None => Callee::Ind(O::K(V::C(a))),
                            }
                        } else {
                            Callee::Ind(O::K(p.konst(c, &Ty::Ptr)?))
                        };
                        c.want(b'(')?;
                        let mut args = vec![];
                        if !c.eat(b')') {
                            loop {
                                if c.peek_word() == "metadata" {
                                    // skip to , or )
                                    let mut d = 0;
                                    while c.i < c.s.len() {
                                        match c.s[c.i] {
                                            b'(' | b'{' => d += 1,
                                            b')' | b'}' if d > 0 => d -= 1,
                                            b')' | b',' if d == 0 => break,
                                            _ => {}
                                        }
                                        c.i += 1;
                                    }
                                    args.push((Ty::Other, O::K(V::Undef)));
                                } else {
                                    let t = p.ty(c)?;
                                    p.skip_attrs(c);
                                    let o = self.op(c, &t)?;
                                    args.push((t, o));
                                }
                                if !c.eat(b',') {
                                    break;
                                }
                            }
                            c.want(b')')?;
                        }
                        if w == "invoke" {
                            let line = std::str::from_utf8(c.s).unwrap();
                            let at = line.rfind(" to label ").ok_or("invoke target")?;
                            c.i = at + 4;
                            normal = Some(self.label(c)?);
                        }
                        I::Call(callee, args, rt, normal)
                    }
                }
                _ => I::Unsupported(w.to_string()),
            }
        };
        b.ins.push(Ins { dst, i });
        Ok(())
    }
}
