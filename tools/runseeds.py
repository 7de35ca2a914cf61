#!/usr/bin/env python3
"""Runs the checks against every planted bug, in scratch copies.  runseeds.py [--all] [--tier T] [ID...]   (--all: every check, not only the bug's own)"""
import json, glob, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__))); W = "/tmp/runseeds"
a = sys.argv[1:]; allc = "--all" in a; tier = "quick"
if "--tier" in a: tier = a[a.index("--tier") + 1]; a.remove("--tier"); a.remove(tier)
ids = [x for x in a if x[0] != "-"] or sorted(os.listdir(V + "/seeded"))
man = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
os.makedirs(W, exist_ok=True)
for i in ids:
    d = V + "/seeded/" + i; prop = json.load(open(d + "/meta.json"))["property"]; R = W + "/repo"
    subprocess.run(["rm", "-rf", R]); subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    if subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"]).returncode: print(i, "DOES NOT APPLY"); continue
    res = []
    for c in (man if allc else [prop]):
        t = time.time()
        env = dict(os.environ, DELYNOI_REPO=R, VERIF_BUILD=W + "/build", VERIF_EVIDENCE=W + "/ev")
        p = subprocess.run([V + "/check", c, "--tier", tier], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        first = next((l.strip() for l in p.stdout.splitlines() if l.startswith("  ")), p.stdout.strip()[-200:] if p.returncode else "")
        if p.returncode or not allc: res.append("%s%s(%.0fs%s)" % (c, {0: ":QUIET", 1: "", 2: ":ERROR"}.get(p.returncode, "?"), time.time() - t, " " + first[:160] if not allc else ""))
    print(i, prop, "CAUGHT" if any(r.startswith(prop + "(") for r in res) else "MISSED", " ".join(res), flush=True)
    subprocess.run("find %s/build -type f -mmin +30 -delete" % W, shell=True)
subprocess.run(["rm", "-rf", W])
