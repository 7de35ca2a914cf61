#!/usr/bin/env python3
"""Writes seeded/<id>/ from the bug definitions in tools/seeds/*.py and confirms each one in a scratch copy of /repo
(builds, stable tests pass, the demonstration passes without and fails with the patch).  Run by hand: mkseed.py [ID...]"""
import glob, json, os, shutil, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
W = "/tmp/seedwork"
DEMO = r'''#!/bin/bash
# Run in the repository after its build: compiles the library's sources with the program beside this script and runs it.
here=$(cd "$(dirname "$0")" && pwd); root=$PWD
T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
export HOME=$T LC_ALL=C
set -o pipefail
SAN="@SAN@"
n=0; for f in $(find "$root/delynoi" "$root/lib" -name '*.cpp' | sort) "$here/demo.cpp"; do n=$((n+1)); echo "$f $T/$n.o"; done |
  xargs -P 8 -L 1 sh -c 'g++ -std=gnu++17 -w -O1 '"$SAN"' -I'"$root"'/delynoi/include -I'"$root"'/lib/utilities/include -c "$0" -o "$1"' || exit 0
gcc -w -O1 $SAN -DTRILIBRARY -DANSI_DECLARATORS -c "$(find "$root" -name triangle.c | head -1)" -o "$T/t.o" || exit 0
g++ $SAN "$T"/*.o -o "$T/demo" || exit 0
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <set>
#include <map>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <climits>
#include <delynoi/models/Region.h>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <delynoi/config/DelynoiConfig.h>
typedef std::vector<Point> Pts;
static void need(bool ok, const char* what){ if(!ok){ printf("FAILED: %s\n", what); exit(1);} }
template<class M> double meshArea(M& m){ double a=0; for(auto& p: m.getPolygons()) a+=std::abs(p.signedArea(m.getPoints().getList())); return a; }
static Pts square(double s){ return Pts{Point(0,0),Point(s,0),Point(s,s),Point(0,s)}; }
'''
S = {}
def bug(id, prop, edits, needs, breaks, demo, san=""):
    assert id not in S, id
    S[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, san=san)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")): exec(open(f).read())

def run(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def fresh():
    subprocess.run(["rm", "-rf", W + "/repo"]); os.makedirs(W, exist_ok=True)
    run("git", "clone", "-q", "/repo", W + "/repo", check=True)
def fixlines():      # text of the lines the fix commits added
    d = run("git", "-C", "/repo", "diff", "13c1cbd", "HEAD").stdout
    return {l[1:].strip() for l in d.splitlines() if l.startswith("+") and not l.startswith("+++")}
def main():
    fresh(); R = W + "/repo"; mine = fixlines(); bad = 0
    for id in (sys.argv[1:] or sorted(S)):
        b = S[id]; d = V + "/seeded/" + id
        for f, old, new in b["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1: print(id, "EDIT MATCHES", t.count(old), repr(old)); bad += 1
            t = t.replace(old, new, 1); open(R + "/" + f, "w").write(t)
        patch = run("git", "-C", R, "diff").stdout
        gone = [l[1:].strip() for l in patch.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        warn = [l for l in gone if l in mine and len(l) > 6]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.sh", "w").write(DEMO.replace("@SAN@", b["san"])); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(HEAD + textwrap.dedent(b["demo"]).strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # stable tests, straight from the programs (same sources, own build)
        td = W + "/t"; subprocess.run(["rm", "-rf", td]); os.makedirs(td)
        p1 = run("bash", d + "/demo.sh", cwd=R)
        build = run("bash", "-c", "for f in $(find %s/delynoi %s/lib -name '*.cpp'); do echo $f; done | xargs -P 8 -I{} sh -c 'g++ -std=gnu++11 -w -O2 -I%s/delynoi/include -I%s/lib/utilities/include -c {} -o %s/$(echo {} | md5sum | cut -c1-12).o' && gcc -w -O2 -DTRILIBRARY -DANSI_DECLARATORS -c $(find %s -name triangle.c | head -1) -o %s/tri.o" % (R, R, R, R, td, R, td))
        fails = ["build"] if build.returncode else []
        for src in sorted(glob.glob(R + "/test/*.cpp")):
            n = os.path.basename(src)[:-4]
            if n == "CreateFromFileTest": continue
            c = run("bash", "-c", "g++ -std=gnu++11 -w -O1 -I%s/delynoi/include -I%s/lib/utilities/include -I%s/test %s %s/*.o -o %s/%s && mkdir %s/h_%s && cp %s/test/test_examples/* %s/h_%s && cd %s/h_%s && HOME=$PWD timeout 60 ../%s" % (R, R, R, src, td, td, n, td, n, R, td, n, td, n, n))
            if c.returncode: fails.append(n)
        run("git", "-C", R, "checkout", "-q", "--", ".")
        p0 = run("bash", d + "/demo.sh", cwd=R)
        ok = p0.returncode == 0 and p1.returncode != 0 and not fails
        bad += not ok
        print(id, b["prop"], "OK" if ok else "BAD", "clean rc=%d patched rc=%d" % (p0.returncode, p1.returncode), "failing tests", fails, "| fix lines touched:" if warn else "", warn, p1.stdout.strip()[-150:].replace("\n", " "), "" if ok else p0.stdout[-300:], flush=True)
    subprocess.run(["rm", "-rf", "/tmp/seedwork"])
    print("bad:", bad)
main()
