//! Interface between harnesses and the symbolic executor (or, natively, the replayer).
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sv_val(n: *const u8, l: usize, w: u64, lo: u64, hi: u64) -> u64;
        fn sv_arr(n: *const u8, l: usize, dst: *mut u8, len: u64);
        fn sv_assume(c: u8);
        fn sv_check(c: u8, m: *const u8, l: usize);
        fn sv_check_eq(a: *const u8, b: *const u8, n: u64, m: *const u8, l: usize);
        fn sv_reach(m: *const u8, l: usize);
        fn sv_note(m: *const u8, l: usize, v: u64);
        fn sv_concrete(v: u64) -> u64;
        fn sv_alloc_limit(v: u64);
        fn sv_alloc_total(v: u64);
        fn sv_allow_panic(v: u64);
        fn sv_digest_cap(v: u64);
        fn sv_format();
        fn sv_stop();
    }
    pub fn val(name: &str, w: u64, lo: u64, hi: u64) -> u64 {
        unsafe { sv_val(name.as_ptr(), name.len(), w, lo, hi) }
    }
    pub fn arr(name: &str, dst: &mut [u8]) {
        unsafe { sv_arr(name.as_ptr(), name.len(), dst.as_mut_ptr(), dst.len() as u64) }
    }
    pub fn assume(c: bool) {
        unsafe { sv_assume(c as u8) }
    }
    pub fn check(c: bool, m: &str) {
        unsafe { sv_check(c as u8, m.as_ptr(), m.len()) }
    }
    pub fn check_eq(a: &[u8], b: &[u8], m: &str) {
        check(a.len() == b.len(), m);
        unsafe { sv_check_eq(a.as_ptr(), b.as_ptr(), a.len() as u64, m.as_ptr(), m.len()) }
    }
    pub fn reach(m: &str) {
        unsafe { sv_reach(m.as_ptr(), m.len()) }
    }
    pub fn note(m: &str, v: u64) {
        unsafe { sv_note(m.as_ptr(), m.len(), v) }
    }
    /// fork over every value of v
    pub fn concrete(v: u64) -> u64 {
        unsafe { sv_concrete(v) }
    }
    pub fn alloc_limit(v: u64) {
        unsafe { sv_alloc_limit(v) }
    }
    /// limit on all memory allocated from here on (and not freed); 0: none
    pub fn alloc_total(v: u64) {
        unsafe { sv_alloc_total(v) }
    }
    /// follow at most this many digests of inputs that are not part of the hash tree (0: all)
    /// the text of symbolic numbers matters
    pub fn format() {
        unsafe { sv_format() }
    }
    pub fn digest_cap(v: u64) {
        unsafe { sv_digest_cap(v) }
    }
    pub fn allow_panic(v: bool) {
        unsafe { sv_allow_panic(v as u64) }
    }
    pub fn stop() -> ! {
        unsafe { sv_stop() };
        loop {}
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::collections::HashMap;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    use std::sync::Mutex;

    pub enum In {
        V(u64),
        A(HashMap<u64, u8>),
    }
    pub static INPUTS: Mutex<Option<HashMap<String, In>>> = Mutex::new(None);
    static COUNTS: Mutex<Option<HashMap<String, u64>>> = Mutex::new(None);
    static LIMIT: AtomicU64 = AtomicU64::new(0);
    pub static ALLOW: AtomicBool = AtomicBool::new(false);

    struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            lim(l.size());
            tot(l.size() as i64);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            lim(l.size());
            tot(l.size() as i64);
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            lim(n);
            tot(n as i64 - l.size() as i64);
            System.realloc(p, l, n)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            tot(-(l.size() as i64));
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static GLOBAL: A = A;
    static TOTAL: AtomicU64 = AtomicU64::new(0);
    static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
    fn tot(n: i64) {
        let l = TOTAL.load(SeqCst);
        if l != 0 && LIVE.fetch_add(n, SeqCst) + n > l as i64 {
            TOTAL.store(0, SeqCst);
            println!("RESULT alloc total > {l}");
            std::process::exit(4);
        }
    }
    pub fn alloc_total(v: u64) {
        LIVE.store(0, SeqCst);
        TOTAL.store(v, SeqCst);
    }
    fn lim(n: usize) {
        let l = LIMIT.load(SeqCst);
        if l != 0 && n as u64 > l {
            LIMIT.store(0, SeqCst);
            println!("RESULT alloc {n} > {l}");
            std::process::exit(4);
        }
    }

    fn next(name: &str) -> String {
        let mut c = COUNTS.lock().unwrap();
        let c = c.get_or_insert_with(HashMap::new);
        let k = c.entry(name.to_string()).or_default();
        let r = format!("{name}#{k}");
        *k += 1;
        r
    }
    pub fn val(name: &str, _w: u64, lo: u64, hi: u64) -> u64 {
        let n = next(name);
        let g = INPUTS.lock().unwrap();
        let v = match g.as_ref().unwrap().get(&n) {
            Some(In::V(v)) => *v,
            _ => lo,
        };
        if v < lo || v > hi {
            println!("RESULT badvalue {n}={v}");
            std::process::exit(10);
        }
        v
    }
    pub fn arr(name: &str, dst: &mut [u8]) {
        let n = next(name);
        let mut h: u64 = 0xcbf29ce484222325;
        for b in n.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let zero = std::env::var("SV_FILL").map_or(false, |v| v == "zero");
        for (i, d) in dst.iter_mut().enumerate() {
            if zero {
                *d = 0;
                continue;
            }
            let mut x = h ^ (i as u64).wrapping_mul(0x9e3779b97f4a7c15);
            x ^= x >> 29;
            x = x.wrapping_mul(0xbf58476d1ce4e5b9);
            *d = (x >> 32) as u8;
        }
        if let Some(In::A(m)) = INPUTS.lock().unwrap().as_ref().unwrap().get(&n) {
            for (i, b) in m {
                if (*i as usize) < dst.len() {
                    dst[*i as usize] = *b;
                }
            }
        }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("RESULT assumption-failed");
            std::process::exit(10);
        }
    }
    pub fn check(c: bool, m: &str) {
        if !c {
            LIMIT.store(0, SeqCst);
            println!("RESULT check {m}");
            std::process::exit(1);
        }
    }
    pub fn check_eq(a: &[u8], b: &[u8], m: &str) {
        check(a == b, m);
    }
    pub fn reach(_: &str) {}
    pub fn note(m: &str, v: u64) {
        println!("{m}={v}");
    }
    pub fn concrete(v: u64) -> u64 {
        v
    }
    pub fn alloc_limit(v: u64) {
        LIMIT.store(v, SeqCst);
    }
    pub fn digest_cap(_: u64) {}
    pub fn format() {}
    pub fn allow_panic(v: bool) {
        ALLOW.store(v, SeqCst);
    }
    pub fn stop() -> ! {
        println!("RESULT ok");
        std::process::exit(0);
    }
    /// input file: one line per input: `name v VALUE` or `name a IDX:BYTE,IDX:BYTE,...`
    pub fn load(path: &str) {
        let mut m = HashMap::new();
        if path != "-" {
            for l in std::fs::read_to_string(path).expect("inputs").lines() {
                let p: Vec<&str> = l.splitn(3, ' ').collect();
                if p.len() < 2 || l.starts_with('#') {
                    continue;
                }
                let rest = p.get(2).copied().unwrap_or("");
                let v = if p[1] == "v" {
                    In::V(rest.parse().unwrap())
                } else {
                    In::A(
                        rest.split(',')
                            .filter(|s| !s.is_empty())
                            .map(|s| {
                                let (a, b) = s.split_once(':').unwrap();
                                (a.parse().unwrap(), b.parse().unwrap())
                            })
                            .collect(),
                    )
                };
                m.insert(p[0].to_string(), v);
            }
        }
        *INPUTS.lock().unwrap() = Some(m);
    }
    pub fn main(table: &[(&str, extern "C" fn(u64))]) {
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 4 {
            for (n, _) in table {
                println!("{n}");
            }
            return;
        }
        load(&a[3]);
        let f = table.iter().find(|t| t.0 == a[1]).expect("unknown harness").1;
        let arg: u64 = a[2].parse().unwrap();
        std::panic::set_hook(Box::new(|i| {
            LIMIT.store(0, SeqCst);
            if ALLOW.load(SeqCst) {
                println!("RESULT allowed-panic");
                std::process::exit(0);
            }
            println!("RESULT panic {i}");
            std::process::exit(3);
        }));
        // runaway recursion has to show: the usual size of a main thread's stack
        let stack = if a[1].contains("deep") { 8 << 20 } else { 256 << 20 };
        let t = std::thread::Builder::new().stack_size(stack).spawn(move || f(arg)).unwrap();
        let _ = t.join();
        LIMIT.store(0, SeqCst);
        println!("RESULT ok");
    }
}
pub use imp::*;

pub fn u8v(name: &str) -> u8 {
    val(name, 8, 0, 255) as u8
}
pub fn u32v(name: &str) -> u32 {
    val(name, 32, 0, u32::MAX as u64) as u32
}
pub fn u64v(name: &str) -> u64 {
    val(name, 64, 0, u64::MAX)
}
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    val(name, 64, lo, hi)
}
/// a symbolic choice, explored value by value
pub fn choose(name: &str, n: u64) -> u64 {
    concrete(val(name, 64, 0, n - 1))
}
pub fn flag(name: &str) -> bool {
    val(name, 8, 0, 1) == 1
}
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    arr(name, &mut v);
    v
}
