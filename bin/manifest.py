#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl that bin/jobs.py decides is claimed."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import jobs as J
NA = J.NOT_APPLICABLE
c = []
na = []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    try:
        J.jobs(p, "quick")
    except SystemExit:
        na.append({"property": p, "reason": NA.get(p, "not built yet")})
        continue
    c.append({
        "property": p, "quick_cmd": "bin/check.py %s" % p, "thorough_cmd": "bin/check.py %s --tier thorough" % p,
        "technique": "symbolic execution of the compiler's LLVM IR (symx) with SMT (z3/cvc5): " + J.HOW.get(p, ""),
        "level": "model_checking", "level_note": J.NOTE.get(p, J.NOTE[""]),
    })
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
m = {
    "version": 1, "setup_cmd": "bin/setup.sh",
    "hooks": {"guard": "cfg(minisign_verif), cfg(minisign_verif_kernels)",
              "enable": "RUSTFLAGS='--cfg minisign_verif [--cfg minisign_verif_kernels]' (bin/check.py sets them)",
              "source_commits": [x.split()[0] for x in hooks if "verif hooks:" in x]},
    "checks": c, "not_applicable": na,
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
