#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os
import checks
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hook = os.popen("git -C /repo log --format=%H --grep='^verif hook'").read().split()
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "cfg(disc_riider_verif)", "enable": "RUSTFLAGS='--cfg disc_riider_verif' (build_sym.sh and run.py set it)", "source_commits": hook},
    "checks": [], "not_applicable": [],
}
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "symbolic execution of the LLVM IR of the real code with Z3" + c.get("technique", ""),
            "level": "model_checking",
            "level_note": "Within the bounds: " + c["bounds"] + ". Outside: " + c.get("outside", "larger sizes") + ".",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
