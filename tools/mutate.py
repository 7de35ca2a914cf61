#!/usr/bin/env python3
"""Mutation testing of the checks: small syntactic changes of the library, in scratch copies; a change that builds and
passes the stable tests but that no check reports is printed as SURVIVED and looked at by hand.
mutate.py [--step N] [--offset K] [--budget SECONDS] [FILE-SUBSTRING...]   (never used by a check)"""
import glob, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__))); W = "/tmp/mutate"; R = W + "/repo"
a = sys.argv[1:]
def opt(n, d):
    if n in a: k = a.index(n); v = a[k + 1]; del a[k:k + 2]; return v
    return d
step, off, budget, only = int(opt("--step", 7)), int(opt("--offset", 0)), opt("--budget", "40"), opt("--line", "")
WHO = [("Region", "R01 R02 X01 I01 G01 R03 H01 V01 T01"), ("polygon/Polygon", "G01 R03 R04 E01 X01 G02 I01"), ("polygon/Triangle", "G01 V02 V01 G02 T01"), ("polygon/", "G01 R03 C02 R01"),
       ("basic/", "G03 E01 R04 S01 R03 V01"), ("voronoi/", "V01 V03 T01 T02 T03 H01 V02 M01"), ("neighbourhood/", "S02 V03 V01 E01"), ("hole/", "C01 R02 R03 V01 R01"), ("generator/", "C02 X01"),
       ("triangulation/", "G02 X01 M01"), ("Mesh.h", "I01 V03 X01 M01 H01"), ("UniqueList", "S01 E01 V03"), ("config/", "C01 H01"), ("utilities", "S01 I01 G03 C01 E01 G01 G02")]
def run(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
SUB = [(r"(?<![<>=!\-])<(?![<=])(?=[^<>]*[;){])", "<="), (r"<=", "<"), (r"(?<![>\-=])>(?![>=])(?=[^<>]*[;){])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<=[\w)\]])\s*\+\s*(?=[\w(])", " - "), (r"(?<=[\w)\]])\s*-\s*(?=[\w(])", " + "), (r"(?<=[\w)\]])\s*\*\s*(?=[\w(])(?![a-z]\w*\s*[=;,)])", "/"), (r"(?<=[\w)\]])\s*/\s*(?=[\w(])", "*"),
       (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bi\b", "(i+1)"), (r"\.getX\(\)", ".getY()"), (r"\.getFirst\(\)", ".getSecond()"), (r"\bmin\b", "max"), (r"\bmax\b", "min")]
def mutants():
    for f in sorted(x for x in run("git", "-C", "/repo", "ls-files", "delynoi", "lib/utilities").stdout.split() if re.search(r"\.(cpp|h)$", x)):
        if "/lib/" in f.replace("lib/utilities", "") or "clipper.cpp" in f or "clipper.hpp" in f: continue
        L = open("/repo/" + f, errors="replace").read().split("\n"); com = False
        for n, l in enumerate(L):
            s = l.strip()
            if s.startswith("/*"): com = True
            if com:
                if "*/" in s: com = False
                continue
            if not s or s.startswith(("//", "#", "template", "using", "namespace")): continue
            if f.endswith(".h") and not re.search(r"[=+\-*/]|return|if", s): continue
            for pat, new in SUB:
                for m in re.finditer(pat, l): yield f, n, l[:m.start()] + new + l[m.end():]
            if s.endswith(";") and not s.startswith(("return", "}", "break", "continue", "class", "struct")) and (re.match(r"^[\w\->.\[\]()+*&:, ]+(\(|=|\+\+|<<)", s)) and not re.match(r"^[\w:<>,&* ]+\s[\w]+(\s*=|;|\s*\()", s): yield f, n, "/* " + s + " */"
            if s in ("continue;", "break;"): yield f, n, ";"
            m = re.search(r"\bif\s*\((.*)\)\s*\{?\s*$", l)
            if m: yield f, n, l.replace("if", "if(!", 1).replace("(!(", "(!(", 1).rstrip("{ ") + ")" + ("{" if l.rstrip().endswith("{") else "") if False else l[:m.start(1)] + "!(" + m.group(1) + ")" + l[m.end(1):]
all_ = [m for m in mutants() if not a or any(x in m[0] for x in a)]
pick = all_[off::step]; print(len(all_), "mutants,", len(pick), "taken", flush=True)
subprocess.run(["rm", "-rf", R]); os.makedirs(W, exist_ok=True); run("git", "clone", "-q", "/repo", R)
env = dict(os.environ, DELYNOI_REPO=R, VERIF_BUILD=W + "/build", VERIF_EVIDENCE=W + "/ev", VERIF_BUDGET=budget)
O = W + "/o"; os.makedirs(O, exist_ok=True); objs = {}
def cc(f):
    o = O + "/" + f.replace("/", "_") + ".o"; p = run("bash", "-c", "timeout 200 %s -w -O1 -Idelynoi/include -Ilib/utilities/include -c %s -o %s" % ("gcc -DTRILIBRARY -DANSI_DECLARATORS" if f.endswith(".c") else "g++ -std=gnu++11", f, o), cwd=R); return p.returncode, o
import concurrent.futures as cf
tests = [t for t in sorted(glob.glob(R + "/test/*.cpp")) if "CreateFromFile" not in t]
srcs = [os.path.relpath(x, R) for x in glob.glob(R + "/delynoi/**/*.cpp", recursive=True) + glob.glob(R + "/lib/**/*.cpp", recursive=True) + glob.glob(R + "/delynoi/**/triangle.c", recursive=True) + glob.glob(R + "/lib/**/triangle.c", recursive=True)]
def build(files):
    with cf.ThreadPoolExecutor(8) as ex: r = list(ex.map(cc, files))
    return not any(x[0] for x in r)
assert build(srcs)
def one(t):
    n = os.path.basename(t)[:-4]; d = "%s/h_%s" % (W, n); subprocess.run(["rm", "-rf", d]); os.makedirs(d); run("bash", "-c", "cp %s/test/test_examples/* %s" % (R, d))
    p = run("bash", "-c", "timeout 120 g++ -std=gnu++11 -w -O0 -I%s/delynoi/include -I%s/lib/utilities/include -I%s/test %s %s/*.o -o %s/t && HOME=$PWD timeout 30 ./t" % (R, R, R, t, O, d), cwd=d); return p.returncode
cnt = dict(build=0, tests=0, caught=0, survived=0); dirty = []
for f, n, new in pick:
    t0 = time.time(); L = open(R + "/" + f, errors="replace").read().split("\n"); old = L[n]; L[n] = new; open(R + "/" + f, "w").write("\n".join(L))
    need = srcs if f.endswith(".h") or "Segment.cpp" in f else [f]
    todo = sorted(set(need) | set(dirty)); ok = build(todo); dirty = need; res = ""
    if not ok: res = "build"
    else:
        with cf.ThreadPoolExecutor(8) as ex: rc = list(ex.map(one, tests))
        if any(rc): res = "tests"
    if not res:
        who = next(w for k, w in WHO if k in f).split()
        for c in who:
            p = run(V + "/check", c, "--tier", "quick", env=env)
            if p.returncode == 1: res = "caught"; by = c; break
            if p.returncode == 2: by = c + "?" + p.stdout[-200:]; res = "caught"; break
        else: res = "survived"
    cnt[res] += 1
    if res in ("survived", "caught"): print("%s %s %s:%d: %s  =>  %s  (%.0f s)" % (res.upper(), by if res == "caught" else "", f, n + 1, old.strip(), new.strip(), time.time() - t0), flush=True)
    run("git", "-C", R, "checkout", "-q", "--", "."); subprocess.run("find %s/build -type f -name '*-*' ! -name '*.h' ! -name '*.gch' -mmin +20 -delete" % W, shell=True)
print(cnt); subprocess.run(["rm", "-rf", W])
