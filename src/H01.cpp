// H01: meshing is deterministic, history independent and pure.
#include "common.hpp"
#include <malloc.h>
// What fresh memory holds is not an input: the allocator fills new blocks (and freed ones) with a chosen pattern, and the part of
// the stack the library is about to use is painted with it.
static const int PAT[] = {0, 0x100 | 0xff, 0x01, 0xaa, 0x3f, 0x80};      // (mallopt fills new blocks with the complement)
__attribute__((noinline)) static void paint(int k) {
    mallopt(M_PERTURB, PAT[k] & 0xff); if (!PAT[k]) return;
    volatile char b[49152]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)~PAT[k];
}
struct Painted { Painted(int k) { paint(k); } ~Painted() { mallopt(M_PERTURB, 0); } };
struct Op { std::string name; std::function<std::string()> run; };
static std::function<std::string()> vor2(Scn s) { return [s]() {
        Case c; Region rg = buildRegion(s, c); Pts sd = rg.getSeedPoints(); std::string before = dumpRegion(rg); std::string sb; for (auto& p : sd) sb += p.getString() + ";";
        TriangleVoronoiGenerator g(sd, rg);
        std::string out = dumpMesh(g.getMesh()) + dumpMesh(g.getTriangulation());
        std::string sa; for (auto& p : sd) sa += p.getString() + ";";
        if (dumpRegion(rg) != before) out += "REGION CHANGED"; if (sa != sb) out += "SEEDS CHANGED";
        return out; }; }
static std::function<std::string()> con2(Scn s, int kind) { return [s, kind]() {
        Case c; Region rg = buildRegion(s, c); Pts sd = rg.getSeedPoints(); std::string before = dumpRegion(rg); std::string sb; for (auto& p : sd) sb += p.getString() + ";";
        TriangleDelaunayGenerator g(sd, rg); std::vector<PointSegment> rs; if (sd.size() > 1) rs.push_back(PointSegment(sd[0], sd[1]));
        std::string out;
        if (kind == 0) { Mesh<Triangle> m = g.getConformingDelaunayTriangulation(); out = dumpMesh(m); }
        if (kind == 1) { Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(); out = dumpMesh(m); }
        if (kind == 2) { Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(rs); out = dumpMesh(m); for (auto& x : rs) out += x.getString(); }
        std::string sa; for (auto& p : sd) sa += p.getString() + ";";
        if (dumpRegion(rg) != before) out += "REGION CHANGED"; if (sa != sb) out += "SEEDS CHANGED";
        return out; }; }
static std::vector<Op> ops() {
    std::vector<Op> r;
    auto vor = [](Scn s) { return vor2(s); }; auto con = [](Scn s, int k) { return con2(s, k); };
    auto cur = curated();
    Scn s; s.outer = cur[0].second; s.seeds = admissible(s, gridSeeds(s.outer, 4, 4));
    r.push_back({"voronoi of a 4x4 square grid", vor(s)});
    Scn s2; s2.outer = cur[0].second; s2.seeds = admissible(s2, irregularSeeds(s2.outer, 25, 4)); r.push_back({"voronoi of 25 irregular seeds", vor(s2)});
    r.push_back({"constrained with a restricted segment", con(s2, 2)});
    Scn l; l.outer = cur[1].second; l.seeds = admissible(l, irregularSeeds(l.outer, 30, 1)); r.push_back({"conforming L", con(l, 0)});
    Scn h; h.outer = {{0, 0}, {20, 0}, {20, 20}, {0, 20}}; HoleSpec q; q.circle = true; q.c = {9, 11}; q.r = 3; h.holes = {q}; h.seeds = admissible(h, gridSeeds(h.outer, 6, 6)); r.push_back({"voronoi of a square with a circular hole", vor(h)});
    Scn cl; cl.outer = h.outer; HoleSpec x; x.poly = {{18, 8}, {23, 9}, {21, 13}}; cl.holes = {x}; cl.seeds = admissible(cl, irregularSeeds(cl.outer, 12, 9)); r.push_back({"constrained clipped square", con(cl, 1)});
    Scn un; un.outer = cur[6].second; un.seeds = admissible(un, gridSeeds(un.outer, 9, 9)); r.push_back({"voronoi unicorn", vor(un)});
    Scn big; big.outer = {{0, 0}, {100, 0}, {100, 100}, {0, 100}}; big.seeds = admissible(big, irregularSeeds(big.outer, 700, 2)); r.push_back({"voronoi of 700 seeds", vor(big)});
    Scn tiny; tiny.outer = {{0, 0}, {1, 0}, {0.4, 0.8}}; r.push_back({"voronoi of a bare triangle", vor(tiny)});
    r.push_back({"a mesh under another configuration, restored", [h]() {
        DelynoiConfig* c = DelynoiConfig::instance(); int gr = c->getDiscretizationGrade(), sc = c->getScale(), pr = c->getPrecision(); double to = c->getTolerance();
        c->setDiscretizationGrade(7); c->setScale(1000); c->setTolerance(1e-4); c->setPrecision(3);
        Case cs; Region rg = buildRegion(h, cs); Pts sd = rg.getSeedPoints(); TriangleVoronoiGenerator g(sd, rg); std::string out = dumpMesh(g.getMesh());
        c->setDiscretizationGrade(gr); c->setScale(sc); c->setTolerance(to); c->setPrecision(pr);
        return out; }});
    r.push_back({"a rejected outline", []() { std::string o; try { Pts p{Point(0, 0), Point(1, 1), Point(1, 0), Point(0, 1)}; Region rg(p); o = "accepted"; } catch (std::exception& e) { o = "rejected"; } return o; }});
    r.push_back({"a mesh printed and read", [s]() {
        Case c; Region rg = buildRegion(s, c); Pts sd = rg.getSeedPoints(); TriangleVoronoiGenerator g(sd, rg); g.getMesh().printInFile("h01.txt");
        Mesh<Polygon> m; m.createFromFile("h01.txt", 0); return dumpMesh(m); }});
    r.push_back({"random seeds, not compared", []() {
        Pts p{Point(0, 0), Point(10, 0), Point(10, 10), Point(0, 10)}; Region rg(p); rg.generateSeedPoints(PointGenerator(functions::random_double(0, 10), functions::random_double(0, 10)), 4, 4);
        return std::string("drawn"); }});
    return r;
}
static void shapes(const M& m, std::multiset<std::string>& out) {
    for (size_t i = 0; i < m.cells.size(); i++) {
        g::Poly q = m.cell(i); std::rotate(q.begin(), std::min_element(q.begin(), q.end()), q.end()); out.insert(g::str(q));
    }
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one sequence of mesh generations in one process, each result compared bit by bit with that of a process that did nothing else; or one scenario with and without repeated seeds";
        auto op = std::make_shared<std::vector<Op>>(ops());
        auto ref = std::make_shared<std::vector<std::string>>();
        for (auto& o : *op) ref->push_back(inFreshProcess([&]() { std::string h = e.scratch; setenv("HOME", h.c_str(), 1); return o.run(); }));
        uint64_t n = op->size(); int depth = e.thorough() ? 4 : 3; uint64_t tot = 1; for (int k = 0; k < depth; k++) tot *= n;
        e.add("sequences of generations", tot, 60, [=](uint64_t i, Case& c) {
            Dec d(i);
            for (int k = 0; k < depth; k++) {
                int o = d.take(n); std::string got; 
                try { got = "ok " + (*op)[o].run(); } catch (std::exception& x) { got = std::string("exception ") + x.what(); }
                c.op(); c.state(mc::hash_str(got));
                if (got.find("CHANGED") != std::string::npos) { c.fail("input-changed", "step " + num(k + 1) + " (" + (*op)[o].name + "): " + got.substr(got.size() - 14)); return; }
                if (got != (*ref)[o]) { c.fail("history-dependent", "step " + num(k + 1) + " (" + (*op)[o].name + "): " + firstDiff(got, (*ref)[o])); return; }
            }
        }, [=](uint64_t i) { Dec d(i); std::string s; for (int k = 0; k < depth; k++) s += (k ? "; " : "") + (*op)[d.take(n)].name; return s; });
        uint64_t nz = e.thorough() ? n : 5;
        e.add("long sequences of generations", n * n * nz, 30, [=](uint64_t i, Case& c) {
            Dec d(i); int a = d.take(n), b = d.take(n), z = nz == n ? d.take(n) : (int[]){0, 3, 5, 9, 10}[d.take(5)];       // a, then b and z over and over, then a again
            for (int k = 0; k < 32; k++) { int o = k == 0 || k == 31 ? a : k % 2 ? b : z; std::string got; try { got = "ok " + (*op)[o].run(); } catch (std::exception& x) { got = std::string("exception ") + x.what(); }
                c.op(); if (k > 25) c.state(mc::hash_str(got)); if (got != (*ref)[o]) { c.fail("history-dependent", "step " + num(k + 1) + " (" + (*op)[o].name + "): " + firstDiff(got, (*ref)[o])); return; } }
        }, [=](uint64_t i) { Dec d(i); int a = d.take(n), b = d.take(n), z = nz == n ? d.take(n) : (int[]){0, 3, 5, 9, 10}[d.take(5)]; return (*op)[a].name + ", 15 times '" + (*op)[b].name + "' and '" + (*op)[z].name + "', and again the first"; });
        uint64_t NPAT = sizeof(PAT) / sizeof(*PAT);
        e.add("one generation under every memory pattern", n * NPAT * NPAT, 30, [=](uint64_t i, Case& c) {
            Dec d(i); int a = d.take(NPAT), b = d.take(NPAT), o = d.take(n);
            for (int k : {a, b}) { std::string got; { Painted p(k); try { got = "ok " + (*op)[o].run(); } catch (std::exception& x) { got = std::string("exception ") + x.what(); } }
                c.op(); c.state(mc::hash_str(got)); if (got != (*ref)[o]) { c.fail("depends-on-memory-contents", (*op)[o].name + ": " + firstDiff(got, (*ref)[o])); return; } }
        }, [=](uint64_t i) { Dec d(i); int a = d.take(NPAT), b = d.take(NPAT); return (*op)[d.take(n)].name + " with memory holding pattern " + num(a) + ", then " + num(b); });
        {   // where memory comes from: growing up from the heap, or down in separate pieces
            static const int N[] = {5, 12, 24, 40, 52, 64}; int nn = e.thorough() ? 6 : 5;
            auto get = [=](uint64_t i, int& kind) { Dec d(i); kind = d.take(4); int w = d.take(6), n = N[d.take(nn)]; Scn s; s.outer = w < 4 ? curated()[(int[]){0, 1, 6, 11}[w]].second : w == 4 ? g::bigPoly(2, 4 * n) : g::Poly{{0, 0}, {21, 0}, {21, 21}, {0, 21}}; if (w == 5) { HoleSpec h; h.circle = true; h.c = {7, 9}; h.r = 3; HoleSpec t; t.poly = {{13, 13}, {17, 14}, {15, 18}}; s.holes = {h, t}; } s.seeds = admissible(s, n % 3 ? irregularSeeds(s.outer, n * n, w) : gridSeeds(s.outer, n, n + 1)); return s; };
            auto tx = [=](uint64_t i) { int k; Scn s = get(i, k); return std::string(k == 0 ? "voronoi" : k == 1 ? "conforming" : k == 2 ? "constrained" : "restricted") + " " + s.text(); };
            e.add("memory from different places", 4 * 6 * nn, 1, [=](uint64_t i, Case& c) {
                int k; Scn s = get(i, k); auto run = k == 0 ? vor2(s) : con2(s, k - 1); std::string first;
                for (int where = 0; where < 4; where++) { mallopt(M_MMAP_THRESHOLD, where % 2 ? 1 << 14 : 1 << 28); mallopt(M_TRIM_THRESHOLD, where < 2 ? 1 << 30 : 1 << 12); std::vector<void*> hold; if (where == 2) { for (int j = 0; j < 40; j++) hold.push_back(malloc(900000 - 15000 * j)); for (int j = 1; j < 40; j += 2) { free(hold[j]); hold[j] = nullptr; } }
                    std::string got; try { got = run(); } catch (std::exception& x) { got = std::string("exception ") + x.what(); } for (void* x : hold) free(x); c.op(); if (where == 0) { first = got; c.state(mc::hash_str(got)); } else if (got != first) { c.fail("depends-on-memory-addresses", "memory layout " + num(where) + ": " + firstDiff(got, first)); return; } }
            }, tx); }
        {   // the first use of the process under one configuration, the next under another: as if it were the first
            struct Cf { const char* name; double tol; int scale, grade, prec; };
            static const Cf CF[] = {{"defaults", 1e-5, 100000, 12, 6}, {"tolerance 0.5", 0.5, 100000, 12, 6}, {"tolerance 1e-9", 1e-9, 100000, 12, 6}, {"scale 100", 1e-5, 100, 12, 6}, {"grade 5", 1e-5, 100000, 5, 6}, {"grade 40, precision 2", 1e-5, 100000, 40, 2}, {"precision 12, scale 1000000", 1e-5, 1000000, 12, 12}};
            auto probe = std::make_shared<std::vector<Op>>(); for (size_t k : {0, 4, 5, 11}) probe->push_back((*op)[k]);
            probe->push_back({"shallow outlines and clipping holes", []() {
                std::string out; for (double dip : {-0.05, -0.3, -1e-4, -2e-6}) { try { Scn s; s.outer = {{0, 0}, {1, dip}, {2, 0}, {2, 2}, {0, 2}}; s.seeds = {{1, 1}, {0.5, 0.7}}; Case c; Region r = buildRegion(s, c); Pts sd = r.getSeedPoints(); TriangleVoronoiGenerator g(sd, r); TriangleDelaunayGenerator d(sd, r); Mesh<Triangle> t = d.getConstrainedDelaunayTriangulation(); out += dumpMesh(g.getMesh()) + dumpMesh(t);
                    Pts h{Point(1.5111111, 1.123456), Point(3, 1.3), Point(2.5, 1.7)}; r.addHole(PolygonalHole(h)); r.addHole(CircularHole(Point(0.7, 1.5), 0.2)); out += dumpRegion(r); } catch (std::exception& x) { out += std::string("exception ") + x.what(); } }
                Pts p{Point(0, 0), Point(10, 1e-4), Point(0.3, 0.30001), Point(5, 5)}; out += num(geometry_functions::collinear(p[0], p[2], p[3])) + num(p[0] == Point(0.2, 0.1));
                IndexSegment s(0, 3); out += num(s.contains(p, Point(2, 2.0001))) + num(s.contains(p, Point(2, 2 + 1e-7))); Polygon q(p); out += num(q.containsPoint(p, Point(-1e-7, 0))) + num(q.inEdges(p, Point(1, 1.01))) + hexd(q.getArea(p)) + hexd(q.getDiameter(p));
                UniqueList<Point> u; for (double e : {0.0, 1e-7, 1e-3, 0.4, 3.0}) { Point x(e, 0); u.push_back(x); } out += " unique " + num(u.size()) + " " + Point(1.0 / 3, 1e5 / 7).getString();
                return out; }});
            auto under = [](const Cf& k, const std::function<std::string()>& f) { DelynoiConfig* c = DelynoiConfig::instance(); c->setTolerance(k.tol); c->setScale(k.scale); c->setDiscretizationGrade(k.grade); c->setPrecision(k.prec); std::string s; try { s = f(); } catch (std::exception& x) { s = std::string("exception ") + x.what(); }
                c->setTolerance(CF[0].tol); c->setScale(CF[0].scale); c->setDiscretizationGrade(CF[0].grade); c->setPrecision(CF[0].prec); return s; };
            uint64_t NC = sizeof(CF) / sizeof(*CF), NPR = probe->size(); auto pref = std::make_shared<std::vector<std::string>>();
            for (uint64_t k = 0; k < NC * NPR; k++) pref->push_back(inFreshProcess([&]() { std::string h = e.scratch; setenv("HOME", h.c_str(), 1); return under(CF[k % NC], (*probe)[k / NC].run); }));
            e.add("first use under another configuration", NC * NPR * NC * NPR, 20, [=](uint64_t i, Case& c) {
                Dec d(i); int ca = d.take(NC), cb = d.take(NC), a = d.take(NPR), b = d.take(NPR);
                std::string got = inFreshProcess([&]() { under(CF[ca], (*probe)[a].run); return under(CF[cb], (*probe)[b].run); }); c.op(2); c.state(mc::hash_str(got));
                if (got != (*pref)[b * NC + cb]) c.fail("remembers-configuration", (*probe)[b].name + " under " + CF[cb].name + " after " + (*probe)[a].name + " under " + CF[ca].name + ": " + firstDiff(got, (*pref)[b * NC + cb]));
            }, [=](uint64_t i) { Dec d(i); int ca = d.take(NC), cb = d.take(NC), a = d.take(NPR), b = d.take(NPR); return (*probe)[a].name + " under " + CF[ca].name + ", then " + (*probe)[b].name + " under " + CF[cb].name; });
        }
        {   // a scenario and one that differs a little, one after the other: A, B, A
            auto kind = std::make_shared<std::vector<Scn>>(); auto nm = std::make_shared<std::vector<std::string>>();
            Scn b; b.outer = {{0, 0}, {20, 0}, {20, 20}, {0, 20}}; HoleSpec h; h.poly = {{8, 8}, {12, 8}, {11, 12}}; HoleSpec ci; ci.circle = true; ci.c = {15, 15}; ci.r = 2; b.holes = {h, ci}; b.seeds = {{3, 3}, {9, 4}, {5, 12}, {16, 6}, {14, 10}, {4, 17}, {10, 15}};
            auto put = [&](const std::string& n, const std::function<void(Scn&)>& f) { Scn s = b; f(s); kind->push_back(s); nm->push_back(n); };
            put("base", [](Scn&) {}); put("middle seed moved", [](Scn& s) { s.seeds[3] = {17, 3}; }); put("seeds reversed", [](Scn& s) { std::reverse(s.seeds.begin(), s.seeds.end()); }); put("two seeds swapped", [](Scn& s) { std::swap(s.seeds[1], s.seeds[4]); });
            put("first seed moved", [](Scn& s) { s.seeds[0] = {2, 5}; }); put("last seed moved", [](Scn& s) { s.seeds.back() = {10, 17}; }); put("one seed less", [](Scn& s) { s.seeds.erase(s.seeds.begin() + 2); }); put("one seed more", [](Scn& s) { s.seeds.insert(s.seeds.begin() + 2, V{6, 6}); });
            put("seed repeated", [](Scn& s) { s.seeds[3] = s.seeds[2]; }); put("all seeds moved", [](Scn& s) { for (auto& p : s.seeds) p = p + V{0.01, -0.01}; }); put("seed moved by little", [](Scn& s) { s.seeds[2].x += 1e-4; }); put("outline corner moved", [](Scn& s) { s.outer[2] = {20, 19}; });
            put("outline from another corner", [](Scn& s) { std::rotate(s.outer.begin(), s.outer.begin() + 1, s.outer.end()); }); put("outline clockwise", [](Scn& s) { std::reverse(s.outer.begin(), s.outer.end()); }); put("outline bigger", [](Scn& s) { s.outer = {{-1, 0}, {21, 0}, {20, 20}, {0, 20}}; }); put("hole moved", [](Scn& s) { for (auto& p : s.holes[0].poly) p = p + V{0.5, 0.25}; });
            put("hole of another form", [](Scn& s) { s.holes[0].poly = {{8, 8}, {12, 8}, {9, 12}}; }); put("no circle", [](Scn& s) { s.holes.pop_back(); }); put("no hole", [](Scn& s) { s.holes.clear(); }); put("holes swapped", [](Scn& s) { std::swap(s.holes[0], s.holes[1]); }); put("circle bigger", [](Scn& s) { s.holes[1].r = 2.4; });
            put("clipping hole", [](Scn& s) { HoleSpec x; x.poly = {{18, 8}, {23, 9}, {21, 13}}; s.holes.push_back(x); }); put("turned", [](Scn& s) { for (auto* q : {&s.outer, &s.seeds, &s.holes[0].poly}) for (auto& p : *q) p = V{20 - p.x, 20 - p.y}; s.holes[1].c = {5, 5}; });
            uint64_t N = kind->size(); auto var = std::make_shared<std::vector<Op>>(); auto vref = std::make_shared<std::vector<std::string>>();
            for (int w = 0; w < 4; w++) for (auto& s : *kind) var->push_back({"", w == 0 ? vor2(s) : con2(s, w - 1)});
            for (auto& o : *var) vref->push_back(inFreshProcess([&]() { return o.run(); }));
            static const char* WN[] = {"voronoi", "conforming", "constrained", "restricted"};
            e.add("a scenario after a similar one", N * N * 16, 40, [=](uint64_t i, Case& c) {
                Dec d(i); int wa = d.take(4), wb = d.take(4); size_t a = wa * N + d.take(N), b = wb * N + d.take(N);
                for (size_t o : {a, b, a}) { std::string got; try { got = "ok " + (*var)[o].run(); } catch (std::exception& x) { got = std::string("exception ") + x.what(); } c.op(); c.state(mc::hash_str(got)); if (got != (*vref)[o]) { c.fail("history-dependent", (*nm)[o % N] + ": " + firstDiff(got, (*vref)[o])); return; } }
            }, [=](uint64_t i) { Dec d(i); int wa = d.take(4), wb = d.take(4); size_t a = d.take(N), b = d.take(N); return std::string(WN[wa]) + " of '" + (*nm)[a] + "', " + WN[wb] + " of '" + (*nm)[b] + "', the first again"; });
        }
        // repeated seeds: the given list, and the list with repetitions appended / inserted / doubled / all equal
        auto cur = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(curated());
        int NP = e.thorough() ? 40 : 8;
        e.add("repeated seeds", cur->size() * 5 * NP * 6, 60, [=](uint64_t i, Case& c) {
            Dec d(i); auto& p = (*cur)[d.take(cur->size())].second; static const int cnt[] = {1, 3, 9, 25, 60}; int k = cnt[d.take(5)], ph = d.take(NP), how = d.take(6);
            Scn s; s.outer = p; s.seeds = admissible(s, ph % 2 ? irregularSeeds(p, k, ph) : gridSeeds(p, 2 + k / 8 + ph % 3, 2 + k / 6)); if (s.seeds.empty()) { c.trivial = true; return; }
            Region r = buildRegion(s, c); Pts one = r.getSeedPoints(), two;
            size_t m = one.size();
            if (how == 0) { two = one; two.push_back(one[0]); }
            if (how == 1) { two = one; two.insert(two.end(), one.begin(), one.end()); }
            if (how == 2) for (auto& x : one) { two.push_back(x); two.push_back(x); }
            if (how == 3) { two = one; for (size_t j = 0; j < m; j++) two.insert(two.begin() + std::min(two.size(), 2 * j + 1), one[0]); }
            if (how == 4) { for (size_t j = 0; j < m; j++) { two.push_back(one[j]); two.push_back(one[j / 2]); } }
            if (how == 5) { two = one; Pts rp = r.getRegionPoints(); two.insert(two.end(), rp.begin(), rp.end()); }      // corners given as seeds too
            auto bits = [](const Pts& q) { std::string s; for (auto& x : q) s += hexd(x.getX()) + "," + hexd(x.getY()) + ";"; return s; };
            std::string b1 = bits(one), b2 = bits(two), br = dumpRegion(r);
            auto pure = [&](const char* what) { if (bits(one) != b1 || bits(two) != b2) { c.fail("input-changed", std::string(what) + " changes the list of " + num(two.size()) + " seeds given to it"); return false; } if (dumpRegion(r) != br) { c.fail("input-changed", std::string(what) + " changes the region"); return false; } return true; };
            TriangleVoronoiGenerator a(one, r), b(two, r); c.op(2);
            if (!pure("the Voronoi generator")) return;
            std::multiset<std::string> sa, sb; shapes(readMesh(a.getMesh()), sa); shapes(readMesh(b.getMesh()), sb);
            c.state(hashMesh(readMesh(a.getMesh())));
            if (sa != sb) { c.fail("repeated-seeds-change-cells", num(sa.size()) + " cells became " + num(sb.size()) + " with repetitions of kind " + num(how)); return; }
            TriangleDelaunayGenerator ca(one, r), cb(two, r);
            Mesh<Triangle> ma = ca.getConstrainedDelaunayTriangulation(), mb = cb.getConstrainedDelaunayTriangulation(); c.op(2);
            if (readMesh(ma).cells.size() != readMesh(mb).cells.size()) c.fail("repeated-seeds-change-triangulation", num(readMesh(ma).cells.size()) + " triangles became " + num(readMesh(mb).cells.size()));
            TriangleDelaunayGenerator cc(two, r); cc.getConformingDelaunayTriangulation(); std::vector<PointSegment> rs; if (two.size() > 1 && !(two[0] == two[1])) rs.push_back(PointSegment(two[0], two[1])); cc.getConstrainedDelaunayTriangulation(rs); c.op(2);
            pure("a Delaunay generator");
        }, [=](uint64_t i) { Dec d(i); std::string s = (*cur)[d.take(cur->size())].first; static const int cnt[] = {1, 3, 9, 25, 60}; s += " count " + num(cnt[d.take(5)]); s += " pattern " + num(d.take(NP)); s += " repetition " + num(d.take(6)); return s; });
        // purity and repeatability of every scenario of the shared spaces: the region and the seeds stay, a second run gives the same
        for (auto& sp : meshSpaces(e.thorough())) {
            auto get = sp.get; uint64_t step = sp.n > 60000 && !e.thorough() ? 7 : 1;
            e.add("twice: " + sp.name, sp.n / step, sp.chunk, [get, step](uint64_t i, Case& c) {
                Scn s = get(i * step); Region r = buildScn(s, c); Pts sd = r.getSeedPoints(); std::string a = dumpRegion(r);
                Painted first(i % 2 ? 4 : 1); TriangleVoronoiGenerator g1(sd, r); std::string d1 = dumpMesh(g1.getMesh()) + dumpMesh(g1.getTriangulation()); c.op();
                if (dumpRegion(r) != a) { c.fail("region-changed", firstDiff(dumpRegion(r), a)); return; }
                Pts now = r.getSeedPoints(); if (sd.size() != now.size()) { c.fail("seeds-changed", num(sd.size())); return; }
                for (size_t k = 0; k < now.size(); k++) if (hexd(sd[k].getX()) + hexd(sd[k].getY()) != hexd(now[k].getX()) + hexd(now[k].getY())) { c.fail("seeds-changed", "seed " + num(k)); return; }
                Painted second(i % 3 ? 3 : 5); TriangleVoronoiGenerator g2(sd, r); std::string d2 = dumpMesh(g2.getMesh()) + dumpMesh(g2.getTriangulation()); c.op();
                c.state(mc::hash_str(d1));
                if (d1 != d2) { c.fail("second-run-differs", "(fresh memory holds another pattern) " + firstDiff(d1, d2)); return; }
                if (dumpMesh(g1.getMesh()) + dumpMesh(g1.getTriangulation()) != d1) c.fail("earlier-mesh-changed", "by a second generator");
            }, [get, step](uint64_t i) { return get(i * step).text(); });
        }
    });
}
