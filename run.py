#!/usr/bin/env python3
"""Decides one property: run.py ID [--tier quick|thorough]

Rebuilds the whole-program IR of the harnesses from /repo's working tree, runs the symbolic executor
on every job listed for the property in checks.py, replays counterexamples against the natively
compiled code, and writes evidence/<ID>.json.  Exit 0: held; 1: VIOLATION line; 2: no verdict.
"""
import json, os, re, shutil, subprocess, sys, threading, time, fcntl, hashlib, resource
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks

T0 = time.time()
TGT = os.path.join(V, "target")
EV = os.path.join(V, "evidence")
os.makedirs(TGT, exist_ok=True)
os.makedirs(EV, exist_ok=True)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)


class Lock:
    def __init__(self, n):
        self.f = open(os.path.join(TGT, n + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sh(cmd, env=None, cwd=V):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def sources():
    """digest of everything in /repo that is compiled"""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk("/repo")):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update((os.path.join(d, f) + "\0").encode())
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def freshen(td):
    """cargo compares times only: make it rebuild whenever the sources are not those of the last build"""
    stamp, now = os.path.join(td, ".sources"), sources()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        fp = os.path.join(td, "release/.fingerprint")
        for x in os.listdir(fp) if os.path.isdir(fp) else []:
            if x.startswith(("disc_riider", "svsym", "svnative")):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        os.makedirs(td, exist_ok=True)
        open(stamp, "w").write(now)


def build_engine():
    with Lock("engine"):
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, "engine"))
        rc, o = sh(["cargo", "build", "--release", "--offline", "-q"], e, os.path.join(V, "engine"))
    if rc:
        raise RuntimeError("engine build failed:\n" + o)
    return os.path.join(TGT, "engine/release/symex")


def build_ir(feat):
    out = os.path.join(TGT, "ir-%s-%d.ll" % (feat, os.getpid()))
    with Lock("ir"):
        freshen(os.path.join(TGT, "sym"))
        rc, o = sh(["bash", os.path.join(V, "build_sym.sh"), feat, out])
    if rc:
        raise RuntimeError("IR build failed (does /repo compile?):\n" + o)
    return out


class Native:
    """the same harnesses compiled natively against the real crates; built in the background"""

    def __init__(self, feat):
        self.feat, self.err, self.bin = feat, None, None
        self.t = threading.Thread(target=self.build)
        self.t.start()

    def build(self):
        with Lock("native"):
            td = os.path.join(TGT, "native")
            freshen(td)
            e = dict(ENV, CARGO_TARGET_DIR=td, RUSTFLAGS="--cfg disc_riider_verif -Awarnings")
            if "pub fn parse_section(section: &str) -> PyResult<WiiPartType>" in open("/repo/disc-riider-py/src/lib.rs").read():
                e["RUSTFLAGS"] += " --cfg sv_parse_section"
            rc, o = sh(["cargo", "build", "--release", "--offline", "-q", "--features", self.feat], e, os.path.join(V, "native"))
            if rc:
                self.err = o
                return
            dst = os.path.join(TGT, "svnative-%s-%d" % (self.feat, os.getpid()))
            sh(["cp", os.path.join(td, "release/svnative"), dst])
            self.bin = dst

    def run(self, h, arg, inputs, fill, timeout=120):
        """-> (outcome, text); outcome in ok/violation/skip"""
        self.t.join()
        if not self.bin:
            raise RuntimeError("native build failed:\n" + str(self.err))

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        try:
            r = subprocess.run([self.bin, h, str(arg), inputs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout, env=dict(os.environ, SV_FILL=fill), preexec_fn=lim)
        except subprocess.TimeoutExpired:
            return "violation", "does not terminate within %d s" % timeout
        res = [l for l in r.stdout.splitlines() if l.startswith("RESULT")]
        txt = res[-1] if res else "exit %d: %s" % (r.returncode, r.stdout[-300:])
        if r.returncode == 0:
            return "ok", txt
        if r.returncode == 10:
            return "skip", txt
        return "violation", txt


def write_inputs(path, inputs, head=""):
    with open(path, "w") as f:
        if head:
            f.write("".join("# %s\n" % l for l in head.splitlines()))
        for n, v in inputs:
            if isinstance(v, list):
                f.write("%s a %s\n" % (n, ",".join("%d:%d" % (i, b) for i, b in v)))
            else:
                f.write("%s v %d\n" % (n, v))


def main():
    if sys.argv[1] == "--setup":
        build_engine()
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = checks.CHECKS[pid]
    feat = c["feature"]
    budget = 780 if tier == "quick" else 6 * 3600
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]

    nat = Native(feat)
    with ThreadPoolExecutor(2) as ex:
        fe, fi = ex.submit(build_engine), ex.submit(build_ir, feat)
        symex, ir = fe.result(), fi.result()
    t_build = time.time() - T0

    jobs = []
    for j in c["jobs"]:
        if tier == "quick" and j.get("tier") == "thorough":
            continue
        if only and j["h"] != only:
            continue
        args = j.get("args", [0])
        if tier == "thorough" and "targs" in j:
            args = j["targs"]
        for a in args:
            jobs.append((j, a))
    # longest first
    jobs.sort(key=lambda x: -x[0].get("cost", 1))
    procs, stop = set(), threading.Event()

    def run_job(j, a):
        if stop.is_set():
            return None
        out = os.path.join(TGT, "res-%s-%s-%d-%d.json" % (pid, j["h"], a, os.getpid()))
        left = max(20, budget - (time.time() - T0))
        lim = min(left, j.get("time", left)) if tier == "quick" else j.get("ttime", left)
        cmd = [symex, ir, j["h"], "--arg", str(a), "--out", out, "--time", "%d" % lim, "--maxviol", "8", "--seed", str(seed),
               "--traces", "3" if tier == "quick" else "8", "--timeout", "60000" if tier == "quick" else "600000"]
        for k in ("luck", "paths", "instrs"):
            if k in j:
                cmd += ["--" + k, str(j[k])]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        procs.add(p)
        try:
            o, _ = p.communicate(timeout=left + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        procs.discard(p)
        if not os.path.exists(out):
            if stop.is_set():
                return None
            return {"status": "inconclusive", "inconclusive": ["engine ended with %s: %s" % (p.returncode, o[-400:])], "entry": j["h"], "arg": a}
        r = json.load(open(out))
        os.remove(out)
        return r

    results, viols, knowns, errs = [], [], [], []
    validated, skipped = 0, 0

    def confirm(r, inputs, what, n):
        """replay natively; returns replay path when the real code fails"""
        path = os.path.join(EV, "replay-%s-%d.txt" % (pid, n))
        head = "property %s: %s\nharness %s argument %s\nreplay: SV_FILL=zero|rand svnative %s %s <this file>" % (pid, what, r["entry"], r["arg"], r["entry"], r["arg"])
        write_inputs(path, inputs, head)
        for fill in ("rand", "zero"):
            o, txt = nat.run(r["entry"], r["arg"], path, fill)
            if o == "violation":
                with open(path, "a") as f:
                    f.write("# native (%s fill): %s\n" % (fill, txt.replace("\n", " | ")))
                return path, txt
        return None, txt

    nrep = 0
    pool = ThreadPoolExecutor(min(8, c.get("parallel", 8)))
    futs = [pool.submit(run_job, j, a) for j, a in jobs]
    for f in as_completed(futs):
        r = f.result()
        if r is None or stop.is_set():
            continue
        results.append(r)
        for v in r.get("violations", []):
            what = "%s: %s" % (v["kind"], v["msg"])
            k = [k for k in known if re.search(k["match"], r["entry"] + " " + what)]
            nrep += 1
            path, txt = confirm(r, v["inputs"], what, nrep)
            if path is None:
                errs.append("counterexample did not reproduce natively (%s): %s %s arg %s [%s]" % (txt, r["entry"], what, r["arg"], " < ".join(v["stack"][:4])))
                continue
            if k:
                knowns.append(k[0]["what"])
                continue
            viols.append((path, what, txt, r["entry"], r["arg"], v["stack"]))
        if not viols and r.get("status") != "violation":
            for t in r.get("traces", []):
                p = os.path.join(TGT, "trace-%s-%d.txt" % (pid, os.getpid()))
                write_inputs(p, t["inputs"])
                o, txt = nat.run(r["entry"], r["arg"], p, "zero")
                if o == "ok":
                    validated += 1
                elif o == "skip":
                    skipped += 1
                else:
                    nrep += 1
                    path, txt2 = confirm(r, t["inputs"], "native run of a completed path fails", nrep)
                    if path:
                        k = [k for k in known if re.search(k["match"], r["entry"] + " " + txt2)]
                        if k:
                            knowns.append(k[0]["what"])
                        else:
                            viols.append((path, "native run of a completed path fails", txt2, r["entry"], r["arg"], []))
                os.remove(p)
        if viols and not stop.is_set():
            stop.set()
            for p in list(procs):
                p.kill()
    pool.shutdown()
    nat.t.join()

    for r in results:
        for m in r.get("inconclusive", []):
            errs.append("%s arg %s: %s" % (r["entry"], r["arg"], m))
    # vacuity: every label a harness promises must have been reached on some path
    want, got = set(), {}
    for j, a in jobs:
        for l in j.get("reach", []):
            want.add((j["h"], l))
    for r in results:
        for l, n in r.get("reach", {}).items():
            got[(r["entry"], l)] = got.get((r["entry"], l), 0) + n
    missing = sorted(want - set(got)) if not viols else []
    for h, l in missing:
        errs.append("%s never reached '%s' (vacuous)" % (h, l))

    S = lambda k: sum(r.get(k, 0) for r in results)
    chk = {}
    for r in results:
        for m, (n, s) in r.get("checks", {}).items():
            x = chk.setdefault(m, [0, 0])
            x[0] += n
            x[1] += s
    fns = sorted(set(f for r in results for f in r.get("functions", [])))
    bounded = {}
    for r in results:
        for m, n in r.get("bounded", {}).items():
            bounded[m] = bounded.get(m, 0) + n
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": validated,
            "samples": [{"harness": r["entry"], "arg": r["arg"], "inputs": s} for r in results for s in r.get("samples", [])[:1]][:12],
            "exhaustive": not errs and not viols and not bounded,
            "explanation": "states = feasible path prefixes of the real code's LLVM IR explored symbolically; transitions = IR instructions interpreted; each path covers every input value satisfying its path condition",
            "jobs": len(results), "paths_completed": S("completed"), "paths_cut": bounded, "forks": S("forks"),
            "solver_queries": S("queries"), "solver_unknown": S("unknown"), "solver_seconds": round(sum(r.get("solver_seconds", 0) for r in results), 3),
            "max_query_seconds": max([r.get("max_query_seconds", 0) for r in results] or [0]),
            "solver": next((r["solver"] for r in results if "solver" in r), ""),
            "assertions": {m: {"evaluated": n, "needed_solver": s} for m, (n, s) in sorted(chk.items())},
            "reached": {"%s:%s" % k: n for k, n in sorted(got.items())},
            "functions_encoded": fns, "bounds": c["bounds"], "outside": c.get("outside", ""),
            "engine_seconds": {("%s:%s" % (r["entry"], r["arg"])): r.get("seconds", 0) for r in results},
            "build_seconds": round(t_build, 1),
        },
        "assumptions": checks.COMMON_ASSUMPTIONS + c.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(viols),
    }
    if errs:
        ev["coverage"]["no_verdict_because"] = errs[:20]
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for p in (ir, nat.bin):
        if p and os.path.exists(p):
            os.remove(p)
    for w in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for path, what, txt, h, a, st in viols:
        print("%s(%s): %s -> native: %s" % (h, a, what, txt))
        if st:
            print("    at " + " < ".join(st[:6]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s: %d jobs, %d paths, %d checks, %d queries, solver %.1fs, validated %d, wall %.1fs" % (
        pid, tier, len(results), S("paths"), sum(x[0] for x in chk.values()), S("queries"), ev["coverage"]["solver_seconds"], validated, time.time() - T0))
    if viols:
        return 1
    for e in errs[:10]:
        print("NOT EXPLORED: " + e)
    # held on everything explored; what was not explored is in the evidence.  Nothing explored, or a
    # label never reached, is no verdict at all.
    if missing or not results or (errs and ("--strict" in sys.argv or not any(r.get("completed") for r in results))):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
