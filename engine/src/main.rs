mod exec;
mod intr;
mod ir;
mod mem;
mod smt;
mod term;
use exec::*;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 > 126 => write!(o, "\\u{:04x}", (c as u32).min(0xffff)).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(String, InVal)]) -> String {
    list(v.iter().map(|(n, x)| match x {
        InVal::V(k) => format!("[{},{}]", esc(n), k),
        InVal::A(c) => format!("[{},{}]", esc(n), list(c.iter().map(|(i, b)| format!("[{i},{b}]")))),
    }))
}
fn list(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(","))
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: symex FILE.ll ENTRY [--arg N] [--out FILE] [--time S] [--paths N] [--instrs N] [--luck N] [--timeout MS] [-v]");
        return 2;
    }
    let (mut out, mut arg, mut time, mut paths, mut instrs, mut luck, mut tmo, mut verbose, mut maxv, mut traces, mut seed) =
        (None, None, 600.0, 1_000_000u64, 2_000_000_000u64, 2u32, 60_000u32, false, 1usize, 4usize, 1u64);
    let mut i = 3;
    while i < a.len() {
        let nx = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--arg" => arg = Some(nx.parse().unwrap()),
            "--out" => out = Some(nx),
            "--time" => time = nx.parse().unwrap(),
            "--paths" => paths = nx.parse().unwrap(),
            "--instrs" => instrs = nx.parse().unwrap(),
            "--luck" => luck = nx.parse().unwrap(),
            "--timeout" => tmo = nx.parse().unwrap(),
            "--traces" => traces = nx.parse().unwrap(),
            "--seed" => seed = nx.parse().unwrap(),
            "--maxviol" => maxv = nx.parse().unwrap(),
            "-v" => {
                verbose = true;
                i += 1;
                continue;
            }
            o => {
                eprintln!("unknown option {o}");
                return 2;
            }
        }
        i += 2;
    }
    term::init();
    let t0 = std::time::Instant::now();
    let src = std::fs::read_to_string(&a[1]).expect("reading IR");
    let p = match ir::Prog::load(src) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("IR: {e}");
            return 2;
        }
    };
    if verbose {
        eprintln!("loaded {} functions, {} globals in {:.1}s", p.funcs.len(), p.globals.len(), t0.elapsed().as_secs_f64());
    }
    let cfg = Cfg { max_paths: paths, max_instrs: instrs, max_time: time, luck, max_viol: maxv, verbose, traces, seed };
    let mut ex = Ex::new(p, cfg, tmo);
    let err = ex.run(&a[2], arg).err();
    let mut inc = ex.inconclusive.clone();
    if let Some(e) = err {
        inc.push(e);
    }
    inc.dedup();
    let status = if !ex.violations.is_empty() {
        "violation"
    } else if !inc.is_empty() {
        "inconclusive"
    } else {
        "ok"
    };
    let mut fns: Vec<String> = ex.executed.iter().map(|f| intr::short(&ex.p.funcs[*f as usize].name)).collect();
    fns.sort();
    fns.dedup();
    let mine: Vec<&String> = fns.iter().filter(|n| n.contains("disc_riider") || n.contains("iso_tool")).collect();
    let s = &ex.stats;
    let mut j = String::from("{");
    write!(j, "\"entry\":{},\"arg\":{},\"status\":{},", esc(&a[2]), arg.map(|x| x.to_string()).unwrap_or("null".into()), esc(status)).unwrap();
    write!(j, "\"paths\":{},\"completed\":{},\"infeasible\":{},\"failed\":{},\"forks\":{},\"pending\":{},", s.paths, s.done, s.infeasible, s.failed, s.forks, ex.work.len()).unwrap();
    write!(j, "\"instructions\":{},\"queries\":{},\"cache_hits\":{},\"unknown\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"seconds\":{:.3},", s.instrs, ex.smt.queries, ex.smt.cache_hits, ex.smt.unknowns, ex.smt.time, ex.smt.max_time, t0.elapsed().as_secs_f64()).unwrap();
    write!(j, "\"solver\":{},", esc(&smt::version())).unwrap();
    write!(j, "\"bounded\":{{{}}},", s.bounded.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, "\"reach\":{{{}}},", s.reach.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, "\"checks\":{{{}}},", s.checks.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, "\"functions\":{},\"functions_total\":{},", list(mine.iter().map(|x| esc(x))), fns.len()).unwrap();
    write!(j, "\"samples\":{},", list(s.samples.iter().map(|x| esc(x)))).unwrap();
    write!(j, "\"traces\":{},", list(s.traces.iter().map(|(i, n)| format!("{{\"inputs\":{},\"notes\":{}}}", inputs(i), list(n.iter().map(|x| esc(x))))))).unwrap();
    write!(j, "\"inconclusive\":{},", list(inc.iter().take(20).map(|x| esc(x)))).unwrap();
    write!(j, "\"violations\":{}", list(ex.violations.iter().map(|v| {
        let ins = inputs(&v.inputs);
        format!("{{\"kind\":{},\"msg\":{},\"stack\":{},\"trace\":{},\"inputs\":{}}}", esc(&v.kind), esc(&v.msg),
            list(v.stack.iter().take(12).map(|x| esc(&intr::short(x)))), list(v.trace.iter().map(|x| esc(x))), ins)
    }))).unwrap();
    j.push('}');
    match out {
        Some(f) => std::fs::write(f, j).expect("writing result"),
        None => println!("{j}"),
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let r = match h.join() {
        Ok(c) => c,
        Err(_) => 2,
    };
    std::process::exit(r);
}
