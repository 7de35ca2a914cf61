// R01: histories of operations on a region against a reference model.
#include "common.hpp"

// ---- the reference model ----
struct HM { g::Poly p; V center; };
struct Model {
    g::Poly outer; std::vector<HM> holes; g::Poly seeds;
    static bool in(const g::Poly& q, V p) { return g::where(q, p, 1e-6) >= 0; }
    bool keep(V p) const { if (!in(outer, p)) return false; for (auto& h : holes) if (in(h.p, p)) return false; return true; }
    void clean() { g::Poly k; for (auto& p : seeds) if (keep(p)) k.push_back(p); seeds = k; }
};
static bool samePt(V a, V b, double e) { return std::fabs(a.x - b.x) <= e && std::fabs(a.y - b.y) <= e; }

// ---- alphabet ----
struct Opn { std::string name; std::function<void(Region&, Model&, Case&)> run; };
static void writeSeeds(const std::string& f, const g::Poly& s) {
    std::ofstream o(std::string(getenv("HOME")) + "/" + f); o.precision(17); o << s.size() << "\n"; for (auto& p : s) o << p.x << " " << p.y << "\n";
}
static const g::Poly SQ{{0, 0}, {10, 0}, {10, 10}, {0, 10}}, LL{{5, 0}, {10, 0}, {10, 10}, {0, 10}, {0, 5}, {5, 5}}, TR{{0, 0}, {14, 0}, {0, 14}}, FAR{{20, 20}, {30, 20}, {30, 31}, {20, 30}};
static Opn addSeeds(std::string n, g::Poly s) {
    return {n, [s](Region& r, Model& m, Case& c) { Pts p = P(s); r.addSeedPoints(p); c.op(); m.seeds.insert(m.seeds.end(), s.begin(), s.end()); m.clean(); if (p.size() != s.size()) c.fail("argument-changed", "addSeedPoints"); }};
}
static Opn mutate(std::string n, g::Poly q) { return {n, [q](Region& r, Model& m, Case& c) { Pts p = P(q); r.mutate(p); c.op(); m.outer = q; m.clean(); }}; }
static Opn hole(std::string n, HoleSpec h, V center) {     // interior holes only
    return {n, [h, center](Region& r, Model& m, Case& c) {
        Scn t; HM hm{t.holePoly(h), center};
        // only when it lies strictly inside the current outline and apart from the holes it already has
        bool inside = true; for (auto& v : hm.p) if (g::where(m.outer, v, 1e-3) <= 0) inside = false;
        for (auto& v : m.outer) if (g::where(hm.p, v, 1e-3) >= 0) inside = false;
        for (size_t a = 0; a < hm.p.size(); a++) for (size_t b = 0; b < m.outer.size(); b++) if (g::properCross(hm.p[a], hm.p[(a + 1) % hm.p.size()], m.outer[b], m.outer[(b + 1) % m.outer.size()], 0)) inside = false;
        if (!inside) return;
        for (auto& o : m.holes) { for (auto& v : hm.p) if (g::where(o.p, v, 1e-3) >= 0) return; for (auto& v : o.p) if (g::where(hm.p, v, 1e-3) >= 0) return; }
        r.addHole(makeHole(h)); c.op(); m.holes.push_back(hm); m.clean(); }};
}
static std::vector<Opn> alphabet(bool th) {
    std::vector<Opn> a;
    g::Poly lat; for (int x = -1; x <= 11; x += 2) for (int y = -1; y <= 11; y += 3) lat.push_back({x + 0.25, y + 0.5});
    a.push_back(addSeeds("add 2 seeds", {{8, 8}, {1, 2}}));
    a.push_back(addSeeds("add a lattice of seeds, partly outside", lat));
    a.push_back(addSeeds("add seeds on borders and corners", {{0, 0}, {10, 10}, {5, 5}, {10, 5}, {0, 7}, {4, 7}, {3, 3}, {5, 2.5}, {7, 7}, {25, 25}}));
    a.push_back(addSeeds("add seeds around holes", {{8.8, 3}, {5.6, 3.05}, {7.1, 2.3}, {8.9, 2.2}, {6.2, 7.9}, {1.2, 8.8}, {2.5, 8}, {4.2, 3.3}, {4.45, 3.1}, {22.8, 24.2}}));
    a.push_back({"seeds from file", [](Region& r, Model& m, Case& c) { g::Poly s{{2.5, 7.5}, {100, 3}, {6, 6}, {9, 9.25}, {21, 22}}; writeSeeds("seeds.txt", s); r.addSeedsFromFile("seeds.txt"); c.op(); m.seeds.insert(m.seeds.end(), s.begin(), s.end()); m.clean(); }});
    a.push_back({"generate 3x4", [](Region& r, Model& m, Case& c) {
        r.generateSeedPoints(PointGenerator(functions::constant(), functions::constant()), 3, 4); c.op();
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : m.outer) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
        for (int j = 0; j < 4; j++) for (int i = 0; i < 3; i++) m.seeds.push_back({x0 + i * (x1 - x0) / 2, y0 + j * (y1 - y0) / 3});
        m.clean(); }});
    { HoleSpec h; h.poly = {{6, 6}, {8, 6}, {8, 8}, {6, 8}}; a.push_back(hole("square hole", h, {7, 7})); }
    { HoleSpec h; h.poly = {{1, 6}, {4, 6}, {4, 9}, {3.5, 9}, {3.5, 6.5}, {1.5, 6.5}, {1.5, 9}, {1, 9}}; a.push_back(hole("U hole", h, {0, 0})); }
    { HoleSpec h; h.circle = true; h.c = {3, 3}; h.r = 1.5; a.push_back(hole("round hole", h, {3, 3})); }
    { HoleSpec h; h.circle = true; h.c = {24, 24}; h.r = 1.5; a.push_back(hole("far hole", h, {24, 24})); }
    { HoleSpec h; h.poly = {{7.2, 2}, {9.2, 3}, {7.2, 4}, {5.2, 3}}; a.push_back(hole("rhombus hole", h, {7.2, 3})); }
    a.push_back({"cleanInternalHoles", [](Region& r, Model& m, Case& c) { r.cleanInternalHoles(); c.op(); m.holes.clear(); }});
    a.push_back({"cleanSeedPoints", [](Region& r, Model& m, Case& c) { r.cleanSeedPoints(); c.op(); m.seeds.clear(); }});
    a.push_back(mutate("outline := L", LL)); a.push_back(mutate("outline := triangle", TR)); a.push_back(mutate("outline := square", SQ)); a.push_back(mutate("outline := far", FAR));
    a.push_back({"clipping hole", [](Region& r, Model& m, Case& c) {       // takes the band above y=9 off outlines that reach over it (only for the square and the L)
        double top = -1e9; for (auto& p : m.outer) top = std::max(top, p.y);
        bool ok = top == 10; for (auto& p : m.outer) if (p.y > 9 && p.y < 10) ok = false;
        for (auto& h : m.holes) for (auto& p : h.p) if (p.y > 8.5) ok = false;
        double w = 0; for (auto& p : m.outer) w = std::max(w, p.x); if (w != 10) ok = false;
        if (!ok) return;
        Pts p{Point(-1, 9), Point(11, 9), Point(11, 12), Point(-1, 12)}; PolygonalHole h(p); r.addHole(h); c.op();
        g::Poly q; for (auto& v : m.outer) q.push_back(v.y > 9 ? V{v.x, 9} : v); m.outer = q; m.clean(); }});
    a.push_back({"copy and mess with the original", [](Region& r, Model&, Case& c) {
        Region* old = new Region(r); Region cp(*old); Pts p = P(FAR); old->mutate(p); old->cleanSeedPoints(); old->cleanInternalHoles(); delete old; r.cleanSeedPoints(); r = cp; c.op(5); }});
    a.push_back({"mess with a copy", [](Region& r, Model&, Case& c) { Region cp(r); Pts p = P(SQ); cp.mutate(p); Pts s{Point(1, 1)}; cp.addSeedPoints(s); cp.getHoles().clear(); c.op(4); }});
    return a;
}
static bool compare(Region& r, const Model& m, Case& c, const std::string& at) {
    g::Poly seeds = vs(r.getSeedPoints()); c.op(3);
    if (seeds.size() != m.seeds.size()) { c.fail("seed-list", at + ": seeds " + g::str(seeds) + " instead of " + g::str(m.seeds)); return false; }
    for (size_t i = 0; i < seeds.size(); i++) if (!samePt(seeds[i], m.seeds[i], 1e-9)) { c.fail("seed-list", at + ": seed " + num(i) + " is " + g::str(seeds[i]) + " instead of " + g::str(m.seeds[i])); return false; }
    auto& hs = r.getHoles();
    if (hs.size() != m.holes.size()) { c.fail("hole-list", at + ": " + num(hs.size()) + " holes instead of " + num(m.holes.size())); return false; }
    g::Poly all = vs(r.getRegionPoints());
    size_t no = all.size(); g::Poly hp;
    for (size_t i = 0; i < hs.size(); i++) {
        g::Poly p = vs(hs[i].getPoints()); no -= p.size(); hp.insert(hp.end(), p.begin(), p.end());
        if (p.size() != m.holes[i].p.size()) { c.fail("hole-shape", at + ": hole " + num(i)); return false; }
        for (size_t k = 0; k < p.size(); k++) if (!samePt(p[k], m.holes[i].p[k], 1e-9)) { c.fail("hole-shape", at + ": hole " + num(i) + " " + g::str(p)); return false; }
    }
    g::Poly out(all.begin(), all.begin() + no), rest(all.begin() + no, all.end());
    for (size_t k = 0; k < rest.size(); k++) if (!samePt(rest[k], hp[k], 0)) { c.fail("region-points", at + ": hole points do not follow the outline"); return false; }
    if (std::fabs(g::sarea(out) - g::sarea(m.outer)) > 1e-4) { c.fail("outline", at + ": " + g::str(out) + " instead of " + g::str(m.outer)); return false; }
    for (auto& p : out) if (g::bndDist(m.outer, p) > 1e-5) { c.fail("outline", at + ": " + g::str(out) + " instead of " + g::str(m.outer)); return false; }
    if (r.numberOfSides() != (int)out.size()) { c.fail("sides", at + ": " + num(r.numberOfSides()) + " sides for " + num(out.size()) + " points"); return false; }
    std::vector<IndexSegment> sg; r.getSegments(sg);
    if (sg.size() != all.size()) { c.fail("segments", at + ": " + num(sg.size()) + " segments for " + num(all.size()) + " points"); return false; }
    // the segments close every outline once
    std::vector<int> nx(all.size(), -1);
    for (auto& s : sg) { int a = s.getFirst(), b = s.getSecond(); if (a < 0 || b < 0 || a >= (int)all.size() || b >= (int)all.size() || nx[a] != -1) { c.fail("segments", at + ": segment " + s.getString()); return false; } nx[a] = b; }
    size_t lo = 0; std::vector<size_t> len{no}; for (auto& h : m.holes) len.push_back(h.p.size());
    for (size_t l : len) { for (size_t k = 0; k < l; k++) if (nx[lo + k] != (int)(lo + (k + 1) % l)) { c.fail("segments", at + ": outline starting at " + num(lo) + " is not closed in order"); return false; } lo += l; }
    // the polygon the region is made of: measures and membership of the current outline
    Pts po = P(out);
    if (std::fabs(r.getArea(po) - g::sarea(m.outer)) > 1e-4) { c.fail("region-area", at + ": area " + num(r.getArea(po)) + " instead of " + num(g::sarea(m.outer))); return false; }
    BoundingBox b = r.getBox(); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : m.outer) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    if (!samePt({b.xMin(), b.yMin()}, {x0, y0}, 1e-5) || !samePt({b.xMax(), b.yMax()}, {x1, y1}, 1e-5)) { c.fail("region-box", at); return false; }
    for (V q : {V{1.5, 1.2}, V{7.5, 3.3}, V{9.2, 9.4}, V{12, 1}, V{24, 25}}) if (r.containsPoint(Point(q.x, q.y)) != Model::in(m.outer, q)) { c.fail("region-membership", at + ": point " + g::str(q)); return false; }
    return true;
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one sequence of operations on a region, compared with the model after every step; non-trivial when at least one step changed the model";
        auto al = std::make_shared<std::vector<Opn>>(alphabet(e.thorough()));
        auto addSpace = [&](const std::string& name, std::vector<int> ops, int depth) {
        if (ops.empty()) for (size_t k = 0; k < al->size(); k++) ops.push_back(k);
        uint64_t n = ops.size();
        uint64_t tot = 1; for (int k = 0; k < depth; k++) tot *= n;
        e.add(name, tot, std::min<uint64_t>(8000, tot / 60 + 1), [=](uint64_t i, Case& c) {
            Dec d(i); Pts p = P(SQ); Region r(p); Model m; m.outer = SQ; std::string h;
            if (!compare(r, m, c, "new region")) return;
            for (int k = 0; k < depth; k++) {
                auto& o = (*al)[ops[d.take(n)]]; h += (k ? "; " : "") + o.name;
                o.run(r, m, c);
                if (c.failed() || !compare(r, m, c, h)) return;
                uint64_t st = m.holes.size() * 131 + m.outer.size(); for (auto& q : m.seeds) st = hv(st, q); for (auto& q : m.outer) st = hv(st, q); c.state(st);
            }
        }, [=](uint64_t i) { Dec d(i); std::string h; for (int k = 0; k < depth; k++) h += (k ? "; " : "") + (*al)[ops[d.take(n)]].name; return h; });
        };
        // 0-2 3 add, 4 file, 5 generate, 6 square 7 U 8 round 9 far 10 rhombus, 11 clear holes, 12 clear seeds, 13-16 outlines, 17 clip, 18-19 copies
        if (e.thorough()) {
            addSpace("operation histories of a region", {}, 5);
            addSpace("longer operation histories of a region, fewer operations", {0, 1, 2, 5, 6, 7, 8, 11, 12, 13, 15, 16, 17, 18}, 6);
            addSpace("long operation histories of a region, few operations", {3, 2, 6, 7, 11, 13, 15, 17}, 7);
        } else {
            addSpace("operation histories of a region", {}, 4);
            addSpace("longer operation histories of a region, fewer operations", {3, 1, 2, 5, 6, 7, 11, 13, 15, 17, 18}, 5);
            addSpace("long operation histories of a region, few operations", {0, 2, 6, 7, 11, 13, 15, 17}, 6);
        }
        {   // long histories: a pattern of operations over and over
            int L = 3, R = 12; uint64_t n = al->size(), tot = n * n * n;
            auto tx = [=](uint64_t i) { Dec d(i); std::string h = "12 times:"; for (int k = 0; k < L; k++) h += (k ? "; " : " ") + (*al)[d.take(n)].name; return h; };
            e.add("patterns of operations repeated", tot, 120, [=](uint64_t i, Case& c) {
                Dec d(i); int o[3]; for (int& x : o) x = d.take(n); Pts p = P(SQ); Region r(p); Model m; m.outer = SQ;
                for (int k = 0; k < L * R; k++) { auto& q = (*al)[o[k % L]]; if (m.seeds.size() > 600) break; q.run(r, m, c); if (c.failed() || !compare(r, m, c, "operation " + num(k) + ", " + q.name)) return; }
                uint64_t st = m.holes.size() * 131 + m.outer.size(); for (auto& q : m.seeds) st = hv(st, q); c.state(st);
            }, tx); }
        {   // thousands of seeds
            auto big = std::make_shared<std::vector<Opn>>();
            auto lat = [](int n, double o) { g::Poly s; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) s.push_back({-0.7 + (x + o) * 12.0 / n, -0.6 + (y + o) * 12.1 / n}); g::Poly k; for (auto& p : s) { bool ok = g::bndDist(SQ, p) > 1e-3 && g::bndDist(LL, p) > 1e-3 && g::bndDist(TR, p) > 1e-3 && std::fabs(p.y - 9) > 1e-3; for (int a = 6; a <= 8 && ok; a += 2) ok = std::fabs(p.x - a) > 1e-3 && std::fabs(p.y - a) > 1e-3; if (ok) k.push_back(p); } return k; };
            for (int n : {16, 32, 41, 64}) big->push_back(addSeeds("add " + num(n) + "x" + num(n) + " seeds", lat(n, 0.113)));
            { g::Poly s; for (int k = 0; k < 1100; k++) s.push_back({k % 5 * 2.5, 10}); big->push_back(addSeeds("add 1100 equal seeds on the border", s)); }
            for (int k : {5, 6, 11, 12, 13, 15, 17, 18, 19}) big->push_back((*al)[k]);
            int D = e.thorough() ? 4 : 3; uint64_t n = big->size(), tot = 1; for (int k = 0; k < D; k++) tot *= n;
            e.add("histories with thousands of seeds", tot, 20, [=](uint64_t i, Case& c) { Dec d(i); Pts p = P(SQ); Region r(p); Model m; m.outer = SQ; std::string h; for (int k = 0; k < D; k++) { auto& o = (*big)[d.take(n)]; h += (k ? "; " : "") + o.name; o.run(r, m, c); if (c.failed() || !compare(r, m, c, h)) return; uint64_t st = m.holes.size(); for (auto& q : m.seeds) st = hv(st, q); c.state(st); } },
                [=](uint64_t i) { Dec d(i); std::string h; for (int k = 0; k < D; k++) h += (k ? "; " : "") + (*big)[d.take(n)].name; return h; }); }
        {   // many holes: how many x their shape x when the seeds come x what happens then
            int K = e.thorough() ? 49 : 36; auto tx = [=](uint64_t i) { Dec d(i); int w = d.take(3), then = d.take(5), sh = d.take(4), n = 1 + d.take(K); return num(n) + " holes of shape " + num(sh) + ", seeds " + (w == 0 ? "before" : w == 1 ? "after" : "between") + ", then " + num(then); };
            e.add("many holes", 3 * 5 * 4 * K, 20, [=](uint64_t i, Case& c) {
                Dec d(i); int w = d.take(3), then = d.take(5), sh = d.take(4), n = 1 + d.take(K); Pts p = P(g::Poly{{0, 0}, {40, 0}, {40, 40}, {0, 40}}); Region r(p); Model m; m.outer = vs(p);
                g::Poly lat; for (int x = 0; x < 25; x++) for (int y = 0; y < 25; y++) lat.push_back({0.3 + x * 1.6003, 0.2 + y * 1.6007});
                std::vector<HM> hs; for (int k = 0; k < n; k++) { V o{5.0 * (k % 7) + 4.1, 5.0 * (k / 7) + 4.3}; int q = sh == 3 ? k % 3 : sh; g::Poly h; if (q == 0) h = {{o.x - 1, o.y - 1}, {o.x + 1, o.y - 1}, {o.x + 1, o.y + 1}, {o.x - 1, o.y + 1}}; else if (q == 1) h = Scn::circle(o, 1.7, 12); else h = {{o.x - 1.5, o.y + 1}, {o.x + 1.5, o.y + 1.2}, {o.x, o.y}, {o.x + 0.4, o.y - 2}}; hs.push_back({h, o}); }
                g::Poly ok; for (auto& x : lat) { bool k = true; for (auto& h : hs) k = k && g::bndDist(h.p, x) > 1e-3; if (k) ok.push_back(x); } Pts sd = P(ok);
                for (int k = 0; k <= n; k++) { if (k == (w == 0 ? 0 : w == 1 ? n : n / 2)) { r.addSeedPoints(sd); c.op(); m.seeds.insert(m.seeds.end(), ok.begin(), ok.end()); m.clean(); } if (k == n) break; int q = sh == 3 ? k % 3 : sh; Pts hp = P(hs[k].p); if (q == 1) r.addHole(CircularHole(Point(hs[k].center.x, hs[k].center.y), 1.7)); else r.addHole(PolygonalHole(hp)); c.op(); m.holes.push_back(hs[k]); if (!m.seeds.empty()) m.clean(); if (!compare(r, m, c, num(k + 1) + " holes")) return; }
                if (then == 1) { r.cleanInternalHoles(); m.holes.clear(); r.addSeedPoints(sd); m.seeds.insert(m.seeds.end(), ok.begin(), ok.end()); m.clean(); }
                if (then == 2) { Region* cp = new Region(r); r.cleanInternalHoles(); r = *cp; delete cp; r.addSeedPoints(sd); m.seeds.insert(m.seeds.end(), ok.begin(), ok.end()); m.clean(); }
                if (then == 3) { Pts q{Point(-5, -5), Point(45, -4), Point(46, 47), Point(-6, 45)}; r.mutate(q); m.outer = vs(q); m.clean(); r.addSeedPoints(sd); m.seeds.insert(m.seeds.end(), ok.begin(), ok.end()); m.clean(); }
                if (then == 4) { r.cleanSeedPoints(); m.seeds.clear(); r.addSeedPoints(sd); m.seeds = ok; m.clean(); r.cleanInternalHoles(); m.holes.clear(); Pts hp = P(hs[n / 2].p); r.addHole(PolygonalHole(hp)); m.holes.push_back(hs[n / 2]); m.clean(); }
                compare(r, m, c, tx(i)); uint64_t h = then; for (auto& q : m.seeds) h = hv(h, q); c.state(h);
            }, tx); }
        {   // every lattice hole, from every starting corner, with a lattice of seeds in and around it
            auto p3 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(3, 3, 3, 9, true)), sel = std::make_shared<std::vector<g::Poly>>();
            for (auto& p : *p3) for (size_t st = 0; st < p.size(); st++) for (int dir = 0; dir < 2; dir++) { g::Poly q = p; if (dir) std::reverse(q.begin(), q.end()); std::rotate(q.begin(), q.begin() + st, q.end()); for (auto& v : q) v = V{2 + 3 * v.x, 2 + 3 * v.y}; sel->push_back(q); }
            e.add("one hole and a lattice of seeds", sel->size() * 2, 400, [=](uint64_t i, Case& c) {
                Dec d(i); int late = d.take(2); auto& q = (*sel)[d.take(sel->size())]; Pts p = P(SQ); Region r(p); Model m; m.outer = SQ;
                g::Poly lat; for (double x = 0.5; x < 10; x += 0.75) for (double y = 0.5; y < 10; y += 0.75) lat.push_back({x, y}); Pts sd = P(lat), hp = P(q);
                if (late) { r.addSeedPoints(sd); r.addHole(PolygonalHole(hp)); } else { r.addHole(PolygonalHole(hp)); r.addSeedPoints(sd); }
                c.op(2); m.holes.push_back({q, {0, 0}}); m.seeds = lat; m.clean(); compare(r, m, c, "hole " + g::str(q)); uint64_t h = late; for (auto& v : q) h = hv(h, v); c.state(h);
            }, [=](uint64_t i) { Dec d(i); int late = d.take(2); return std::string(late ? "seeds, then" : "before the seeds,") + " hole " + g::str((*sel)[d.take(sel->size())]); });
            e.add("round holes and a lattice of seeds", 30 * 6 * 2, 20, [=](uint64_t i, Case& c) {
                Dec d(i); int late = d.take(2), gr = (int[]){3, 4, 5, 8, 12, 33}[d.take(6)], k = d.take(30); V o{2.6 + k % 5, 2.7 + k / 5 * 0.9}; double rad = 0.8 + 0.3 * (k % 6); if (o.x - rad < 0.1 || o.y - rad < 0.1) { c.trivial = true; return; }
                int keep = DelynoiConfig::instance()->getDiscretizationGrade(); DelynoiConfig::instance()->setDiscretizationGrade(gr); Pts p = P(SQ); Region r(p); Model m; m.outer = SQ;
                g::Poly hp = Scn::circle(o, rad, gr), lat; for (double x = 0.25; x < 10; x += 0.3) for (double y = 0.25; y < 10; y += 0.3) if (g::bndDist(hp, {x, y}) > 1e-3) lat.push_back({x, y}); Pts sd = P(lat);
                if (late) { r.addSeedPoints(sd); r.addHole(CircularHole(Point(o.x, o.y), rad)); } else { r.addHole(CircularHole(Point(o.x, o.y), rad)); r.addSeedPoints(sd); }
                DelynoiConfig::instance()->setDiscretizationGrade(keep); c.op(2); m.holes.push_back({hp, o}); m.seeds = lat; m.clean(); compare(r, m, c, "round hole"); c.state(mc::mix(i, 77));
            }, [=](uint64_t i) { Dec d(i); d.take(2); int gr = d.take(6); return "round hole number " + num(d.take(30)) + " grade number " + num(gr); });
        }
        // a region made from a polygon of a mesh
        e.add("regions made from cells", 12 * 16, 8, [](uint64_t i, Case& c) {
            Dec d(i); Scn s; s.outer = curated()[d.take(12)].second; int k = d.take(16); s.seeds = admissible(s, irregularSeeds(s.outer, 4 + k, k));
            Region r = buildRegion(s, c); Pts sd = r.getSeedPoints(); TriangleVoronoiGenerator g(sd, r); M m = readMesh(g.getMesh());
            for (size_t q = 0; q < m.cells.size(); q++) {
                Region cell(g.getMesh().getPolygon(q), g.getMesh().getPoints().getList()); c.op();
                Model mm; mm.outer = m.cell(q); if (!samePt({0, 0}, {0, 0}, 0)) return;
                g::Poly got = vs(cell.getRegionPoints()); 
                if (got.size() != mm.outer.size()) { c.fail("region-from-polygon", g::str(got)); return; }
                for (size_t j = 0; j < got.size(); j++) if (!samePt(got[j], mm.outer[j], 0)) { c.fail("region-from-polygon", g::str(got) + " instead of " + g::str(mm.outer)); return; }
                Pts ns = sd; cell.addSeedPoints(ns); g::Poly in = vs(cell.getSeedPoints()); c.op(2); size_t sure = 0, may = 0;
                for (auto& p : sd) { int w = g::where(mm.outer, v(p), 1e-4); sure += w > 0; may += w >= 0; }
                if (in.size() < sure || in.size() > may) { c.fail("seeds-of-cell-region", num(in.size()) + " seeds kept in " + g::str(mm.outer)); return; }
                c.state(hv(q, got[0]));
            }
        }, [](uint64_t i) { Dec d(i); std::string s = curated()[d.take(12)].first; return s + " seeds " + num(d.take(16)); });
    });
}
