// X01: an operation that is refused leaves everything as it was. Every history is run twice on the real code, with and without the
// refused operation at every position; both objects must be indistinguishable from then on.
#include "common.hpp"
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <utilities/utilities.h>

static std::string home() { return std::string(getenv("HOME")) + "/"; }
static void spit(const std::string& f, const std::string& s) { std::ofstream o(home() + f, std::ios::binary); o << s; }
static std::string hp(Point p) { return hexd(p.getX()) + "," + hexd(p.getY()) + (p.isValid() ? "" : "e"); }
static std::string hpts(const Pts& p) { std::string s; for (auto& x : p) s += hp(x) + " "; return s; }
// everything a polygon answers about itself
static std::string showPoly(Polygon& p, Pts& pts) {
    std::string s = p.getString() + " a" + hexd(p.getArea(pts)) + " s" + hexd(p.signedArea(pts)) + " d" + hexd(p.getDiameter(pts)) + " m" + hexd(p.getMaxDistance(pts)) + " c" + hp(p.getCentroid(pts)) + " v" + hp(p.getAverage(pts)) + (p.isConvex(pts) ? " convex" : "") + (p.isClockwise(pts) ? " cw" : "");
    std::vector<IndexSegment> sg; p.getSegments(sg); for (auto& x : sg) s += " " + x.getString();
    for (double x = -0.75; x < 11; x += 2.25) for (double y = -0.5; y < 11; y += 2.25) s += p.containsPoint(pts, Point(x, y)) ? '1' : '0';
    return s;
}
static std::string showRegion(Region& r, bool measures) {
    std::string s = dumpRegion(r) + " sides " + num(r.numberOfSides());
    size_t nh = 0; for (auto& h : r.getHoles()) nh += h.getPoints().size(); Pts all = r.getRegionPoints(); Pts out(all.begin(), all.end() - nh);
    BoundingBox b = r.getBox(); s += " box " + hp(b.getFirst()) + " " + hp(b.getSecond());
    if (measures) s += showPoly(r, out);
    for (double x = -0.75; x < 11; x += 2.25) for (double y = -0.5; y < 11; y += 2.25) s += r.containsPoint(Point(x, y)) ? '1' : '0';
    return s;
}
struct Op { std::string name; std::function<void(Region&)> run; };
static Op mut(std::string n, g::Poly q) { return {n, [q](Region& r) { Pts p = P(q); r.mutate(p); }}; }
static std::vector<Op> accepted() {
    std::vector<Op> a;
    a.push_back(mut("outline := L", {{5, 0}, {10, 0}, {10, 10}, {0, 10}, {0, 5}, {5, 5}}));
    a.push_back(mut("outline := clockwise triangle", {{0, 0}, {0, 14}, {14, 0}}));
    a.push_back({"add seeds", [](Region& r) { Pts s{Point(8, 8), Point(1, 2), Point(6.5, 1), Point(2.2, 7.4), Point(5, 5)}; r.addSeedPoints(s); }});
    a.push_back({"generate seeds", [](Region& r) { r.generateSeedPoints(PointGenerator(functions::constant(), functions::constant()), 3, 4); }});
    a.push_back({"square hole", [](Region& r) { Pts p{Point(6, 6), Point(7.5, 6), Point(7.5, 7.5), Point(6, 7.5)}; if (r.containsPoint(Point(7.5, 7.5)) && r.getHoles().empty()) r.addHole(PolygonalHole(p)); }});
    a.push_back({"notch", [](Region& r) { Pts p{Point(3.1, -1), Point(3.1, 1), Point(1.3, 1.2), Point(1.3, -1)}; if (r.containsPoint(Point(2, 0.5))) r.addHole(PolygonalHole(p)); }});
    a.push_back({"clear holes", [](Region& r) { r.cleanInternalHoles(); }});
    a.push_back({"clear seeds", [](Region& r) { r.cleanSeedPoints(); }});
    a.push_back({"copy", [](Region& r) { Region c(r); r = c; }});
    return a;
}
static std::vector<Op> refused() {
    std::vector<Op> a;
    a.push_back(mut("bow tie as outline", {{0, 0}, {10, 10}, {10, 0}, {0, 10}}));
    a.push_back(mut("smaller outline that crosses itself, more corners", {{1, 1}, {9, 1}, {9, 4}, {2, 4}, {2, 0}, {4, 0}, {4, 9}, {1, 9}}));
    a.push_back(mut("far outline that touches itself", {{100, 100}, {110, 100}, {105, 105}, {110, 110}, {100, 110}, {105, 105}}));
    a.push_back({"hole around the whole region", [](Region& r) { Pts p{Point(-5, -5), Point(100, -5), Point(-5, 100)}; r.addHole(PolygonalHole(p)); }});
    a.push_back({"round hole around the whole region", [](Region& r) { r.addHole(CircularHole(Point(-30, 5), 70)); }});
    a.push_back({"hole that crosses itself", [](Region& r) { Pts p{Point(2, 2), Point(4, 4), Point(4, 2), Point(2, 4)}; r.addHole(PolygonalHole(p)); }});
    a.push_back({"seeds from a missing file", [](Region& r) { r.addSeedsFromFile("missing.txt"); }});
    a.push_back({"seeds from a file cut short", [](Region& r) { spit("short.txt", "3\n1 1\n2 8\n"); r.addSeedsFromFile("short.txt"); }});
    a.push_back({"region of a crossing outline assigned", [](Region& r) { Pts p{Point(0, 0), Point(9, 9), Point(9, 0), Point(0, 9)}; r = Region(p); }});
    a.push_back({"generator without rule for y", [](Region& r) { r.generateSeedPoints(PointGenerator(functions::constant(), functions::independent_variable::both), 2, 2); }});
    return a;
}
static std::string attempt(const std::function<void()>& f) { try { f(); return ""; } catch (std::exception& e) { return std::string("!") + e.what(); } }

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one history run with and without one refused operation, or one refused call with everything it was given compared before and after; non-trivial when the operation was refused";
        bool th = e.thorough();
        auto A = std::make_shared<std::vector<Op>>(accepted()), F = std::make_shared<std::vector<Op>>(refused());
        {   int L = th ? 4 : 3; uint64_t na = A->size(), nf = F->size(), h = 1; for (int k = 0; k < L; k++) h *= na;
            auto dec = [=](uint64_t i, std::vector<int>& hs, int& f, int& pos, int& ask) { Dec d(i); f = d.take(nf); ask = d.take(4); pos = d.take(L + 1); hs.clear(); for (int k = 0; k < L; k++) hs.push_back(d.take(na)); };
            auto text = [=](uint64_t i) { std::vector<int> hs; int f, pos, ask; dec(i, hs, f, pos, ask); std::string s = std::string(ask & 2 ? "clockwise; " : "") + (ask & 1 ? "measures asked all along; " : ""); for (int k = 0; k <= L; k++) { if (k == pos) s += "[" + (*F)[f].name + "]; "; if (k < L) s += (*A)[hs[k]].name + "; "; } return s; };
            e.add("a refused operation in a history of a region", h * nf * 4 * (L + 1), 300, [=](uint64_t i, Case& c) {
                std::vector<int> hs; int f, pos, ask; dec(i, hs, f, pos, ask); Pts sq{Point(0, 0), Point(10, 0), Point(10, 10), Point(0, 10)}; if (ask & 2) std::reverse(sq.begin(), sq.end()); ask &= 1; Pts sq2 = sq; Region a(sq), b(sq2); c.op(2);
                for (int k = 0; k <= L; k++) {
                    if (k == pos) { if (ask) showRegion(a, true); std::string before = showRegion(a, false), r = attempt([&]() { (*F)[f].run(a); }); c.op(); if (r.empty()) { c.fail("not-refused", (*F)[f].name); return; }
                        if (showRegion(a, false) != before) { c.fail("refused-changes-region", firstDiff(before, showRegion(a, false))); return; } }
                    if (k == L) break;
                    auto& o = (*A)[hs[k]]; std::string x = attempt([&]() { o.run(a); }), y = attempt([&]() { o.run(b); }); c.op(2);
                    if (x != y) { c.fail("later-outcome", o.name + ": '" + x + "' instead of '" + y + "'"); return; }
                    if (ask) { std::string p = showRegion(a, true), q = showRegion(b, true); if (p != q) { c.fail("later-state", o.name + ": " + firstDiff(q, p)); return; } }
                }
                std::string p = showRegion(a, true), q = showRegion(b, true); c.op(30); if (p != q) { c.fail("later-state", firstDiff(q, p)); return; }
                if (!(a == b) || a < b || b < a) { c.fail("later-equality", "the polygons are no longer equal"); return; }
                if (i % (th ? 29 : 7) == 0 || pos == L) { Pts s = a.getSeedPoints(), t = b.getSeedPoints(); std::string m, n; TriangleVoronoiGenerator g(s, a), g2(t, b); m = dumpMesh(g.getMesh()); n = dumpMesh(g2.getMesh()); c.op(2); if (m != n) { c.fail("later-mesh", firstDiff(n, m)); return; } }
                c.state(mc::mix(mc::hash_str(p), f * 16 + pos));
            }, text); }
        auto polys = std::make_shared<std::vector<g::Poly>>(g::latticePolys(3, 3, 3, 9, true));
        {   // polygons: every lattice polygon, every measure asked before, several crossing outlines
            static const g::Poly X[] = {{{0, 0}, {10, 10}, {10, 0}, {0, 10}}, {{0, 0}, {6, 0}, {6, 6}, {3, -3}, {0, 6}}, {{0, 0}, {5, 5}, {5, 0}, {0, 5}, {-3, 7}, {-9, 3}, {-8, 1}, {-7, 0}, {-2, -1}, {0, -4}}};
            e.add("a refused outline for a polygon", polys->size() * 3 * 9 * 2, 400, [=](uint64_t i, Case& c) {
                Dec d(i); int x = d.take(3), ask = d.take(9), after = d.take(2); auto& q = (*polys)[d.take(polys->size())]; g::Poly z; for (auto& v : q) z.push_back(5.0 * v); Pts p = P(z), p2 = p, bad = P(X[x]); Polygon a(p), b(p2); c.op(2);
                switch (ask) { case 0: break; case 1: a.getArea(p); break; case 2: a.getDiameter(p); break; case 3: a.getCentroid(p); break; case 4: a.fixCCW(p); b.fixCCW(p); break; case 5: showPoly(a, p); break; case 6: std::reverse(a.getPoints().begin(), a.getPoints().end()); std::reverse(b.getPoints().begin(), b.getPoints().end()); break; case 7: { Polygon k(a); a = k; break; } case 8: { Pts other{Point(0, 0), Point(3, 0), Point(3, 8), Point(1, 9), Point(-1, 4)}; a.mutate(other); b.mutate(other); p = p2 = other; } }
                std::string keep = hpts(bad), r = attempt([&]() { a.mutate(bad); }); c.op(2); if (r.empty()) { c.fail("not-refused", g::str(X[x])); return; }
                if (hpts(bad) != keep) { c.fail("refused-changes-argument", hpts(bad)); return; }
                if (after) { a.fixCCW(p); b.fixCCW(p2); c.op(2); }
                std::string s = showPoly(a, p), t = showPoly(b, p2); c.op(40); if (s != t) { c.fail("refused-changes-polygon", firstDiff(t, s)); return; }
                if (!(a == b) || a < b || b < a || a.numberOfSides() != b.numberOfSides()) { c.fail("later-equality", "the polygons are no longer equal"); return; }
                a.mutate(p); std::string u = showPoly(a, p); b.mutate(p2); if (u != showPoly(b, p2)) { c.fail("later-state", "after an accepted outline"); return; }
                c.state(mc::mix(mc::hash_str(s), ask * 8 + x));
            }, [=](uint64_t i) { Dec d(i); int x = d.take(3), ask = d.take(9), after = d.take(2); return "polygon " + g::str(5.0 * (*polys)[d.take(polys->size())][0]) + "... (lattice polygon " + num(d.i) + ") asked " + num(ask) + ", outline " + g::str(X[x]) + (after ? ", then made counterclockwise" : ""); });
        }
        {   // holes: whatever addHole refuses
            auto dom = std::make_shared<std::vector<g::Poly>>(g::uptoSymmetry(g::latticePolys(3, 3, 3, th ? 9 : 6, false))), hol = std::make_shared<std::vector<g::Poly>>(g::latticePolys(4, 4, 3, 4, false));
            auto get = [=](uint64_t i, g::Poly& o, g::Poly& h) { Dec d(i); int sh = d.take(th ? 4 : 2); for (auto& v : (*hol)[d.take(hol->size())]) h.push_back(sh == 0 ? V{3 * v.x - 2, 3 * v.y - 2} : sh == 1 ? V{1.5 * v.x + 4, 1.5 * v.y + 7} : sh == 2 ? V{4 * v.x - 4, 2 * v.y} : V{2.0 * v.x + 5, 2.0 * v.y - 1}); for (auto& v : (*dom)[d.take(dom->size())]) o.push_back(5.0 * v); };
            e.add("holes that may be refused", dom->size() * hol->size() * (th ? 4 : 2), 2000, [=](uint64_t i, Case& c) {
                g::Poly o, h; get(i, o, h); Pts p = P(o), q = P(h), sd = P(gridSeeds(o, 3, 3)); Region r(p); r.addSeedPoints(sd); PolygonalHole ph(q); std::string before = showRegion(r, true), keep = hpts(ph.Hole::getPoints()) + hpts(q); c.op(4);
                std::string x = attempt([&]() { r.addHole(ph); }); if (hpts(ph.Hole::getPoints()) + hpts(q) != keep) { c.fail("addHole-changes-hole", g::str(h)); return; }
                c.trivial = x.empty(); if (x.empty()) return;
                if (showRegion(r, true) != before) { c.fail("refused-changes-region", firstDiff(before, showRegion(r, true))); return; }
                c.state(mc::hash_str(before));
            }, [=](uint64_t i) { g::Poly o, h; get(i, o, h); return "region " + g::str(o) + ", hole " + g::str(h); });
        }
        e.add("a refused triangulation from the center", polys->size() * 4, 200, [=](uint64_t i, Case& c) {
            Dec d(i); int var = d.take(4); g::Poly q = (*polys)[d.take(polys->size())]; if (var & 1) std::reverse(q.begin(), q.end()); Pts p; if (var & 2) { p.push_back(Point(77, 77)); p.push_back(Point(-5, 3)); } std::vector<int> ix; for (auto& v : q) { ix.push_back(p.size()); p.push_back(Point(5 * v.x, 5 * v.y)); } if (var & 2) p.push_back(Point(4, 4));
            Polygon a(ix, p); std::string before = showPoly(a, p), keep = hpts(p); c.op(2); std::string x = attempt([&]() { CenterTriangulationGenerator().triangulate(a, p); }); c.trivial = x.empty(); if (x.empty()) return;
            if (hpts(p) != keep) { c.fail("refused-changes-points", firstDiff(keep, hpts(p))); return; } if (showPoly(a, p) != before) { c.fail("refused-changes-polygon", ""); return; } c.state(mc::hash_str(before + keep));
        }, [=](uint64_t i) { Dec d(i); int var = d.take(4); return "variant " + num(var) + " of " + g::str((*polys)[d.take(polys->size())]); });
        {   // objects that have nothing to do with it: meshes, generators, maps, configuration, rules
            e.add("a refused operation beside other objects", F->size() * 4 * 4, 4, [=](uint64_t i, Case& c) {
                Dec d(i); int f = d.take(F->size()), k = d.take(4), q = d.take(4); auto cur = curated(); Scn s; s.outer = cur[q].second; s.seeds = admissible(s, gridSeeds(s.outer, 4, 5)); Region r = buildRegion(s, c); Pts sd = r.getSeedPoints();
                TriangleVoronoiGenerator vg(sd, r); TriangleDelaunayGenerator dg(sd, r); Mesh<Triangle> t = dg.getConstrainedDelaunayTriangulation(); std::string mv = dumpMesh(vg.getMesh()), mt = dumpMesh(t), rs = showRegion(r, true); DelynoiConfig* cf = DelynoiConfig::instance(); std::string cs = num(cf->getDiscretizationGrade()) + hexd(cf->getTolerance()) + num(cf->getScale()) + num(cf->getPrecision());
                Region other = k == 0 ? r : Region(r); Functor* fn = functions::constant(); c.op(6);
                std::string x; if (k == 0) x = attempt([&]() { (*F)[f].run(r); }); if (k == 1) x = attempt([&]() { (*F)[f].run(other); }); if (k == 2) x = attempt([&]() { vg.getMesh().createFromFile("missing.txt", 0); }); if (k == 3) x = attempt([&]() { PointGenerator g(fn, functions::independent_variable::both); });
                if (x.empty()) { c.fail("not-refused", num(k)); return; }
                if (showRegion(r, true) != rs || showRegion(other, true) != rs) { c.fail("refused-changes-region", firstDiff(rs, showRegion(r, true))); return; }
                if (dumpMesh(vg.getMesh()) != mv || dumpMesh(t) != mt) { c.fail("refused-changes-mesh", firstDiff(mv, dumpMesh(vg.getMesh()))); return; }
                if (cs != num(cf->getDiscretizationGrade()) + hexd(cf->getTolerance()) + num(cf->getScale()) + num(cf->getPrecision())) { c.fail("refused-changes-configuration", cs); return; }
                if (fn->apply(3.25) != 3.25) { c.fail("refused-changes-rule", ""); return; }
                Mesh<Triangle> t2 = dg.getConstrainedDelaunayTriangulation(); TriangleVoronoiGenerator v2(sd, other); if (dumpMesh(t2) != mt || dumpMesh(v2.getMesh()) != mv) { c.fail("later-mesh", ""); return; } c.op(3);
                c.state(mc::mix(mc::hash_str(mv), f * 4 + k));
            }, [=](uint64_t i) { Dec d(i); int f = d.take(F->size()), k = d.take(4); return (*F)[f].name + " way " + num(k) + " domain " + num(d.take(4)); });
        }
        {   // mesh files cut short, read into a mesh that is empty or has elements already
            auto texts = std::make_shared<std::vector<std::pair<int, std::string>>>(); for (size_t k = 0; k < polys->size(); k += (th ? 11 : 67)) { Scn s; for (auto& v : (*polys)[k]) s.outer.push_back(5.0 * v); if (k % 2) s.seeds = admissible(s, gridSeeds(s.outer, 2, 3)); Case c; Region r = buildRegion(s, c); Pts sd = r.getSeedPoints(); DelynoiConfig::instance()->setPrecision(4);
                auto slurp = []() { std::ifstream i(home() + "m.txt"); std::stringstream o; o << i.rdbuf(); return o.str(); }; TriangleVoronoiGenerator vg(sd, r); vg.getMesh().printInFile("m.txt"); texts->push_back({0, slurp()}); TriangleDelaunayGenerator dg(sd, r); Mesh<Triangle> t = dg.getConstrainedDelaunayTriangulation(); t.printInFile("m.txt"); texts->push_back({1, slurp()}); }
            unlink((home() + "m.txt").c_str()); DelynoiConfig::instance()->setPrecision(6);
            auto first = std::make_shared<std::vector<uint64_t>>(); uint64_t tot = 0; for (auto& t : *texts) { first->push_back(tot); tot += t.second.size(); }
            auto at = [=](uint64_t i, int& f, int& cut) { f = std::upper_bound(first->begin(), first->end(), i) - first->begin() - 1; cut = i - (*first)[f]; };
            static auto one = [](auto& a, auto& b, const std::string& cut, const std::string& full, int filled, Case& c) {
                spit("whole.txt", full); spit("cut.txt", cut); if (filled) { std::string base = "4\n-5 -5\n-1 -5\n-1 -1\n-5 -1\n2\n3 0 1 2\n3 0 2 3\n"; spit("base.txt", base); a.createFromFile("base.txt", 0); b.createFromFile("base.txt", 0); c.op(2); }
                auto copy = a; std::string before = dumpMesh(a), x = attempt([&]() { a.createFromFile("cut.txt", 0); }); c.op(); c.trivial = x.empty(); if (x.empty()) return;
                if (dumpMesh(a) != before || dumpMesh(copy) != before) { c.fail("refused-changes-mesh", firstDiff(before, dumpMesh(a))); return; }
                a.createFromFile("whole.txt", 0); b.createFromFile("whole.txt", 0); c.op(2); if (dumpMesh(a) != dumpMesh(b)) { c.fail("later-mesh", firstDiff(dumpMesh(b), dumpMesh(a))); return; } c.state(mc::mix(mc::hash_str(cut), filled));
            };
            e.add("mesh files cut short", tot * 2, 300, [=](uint64_t i, Case& c) {
                int f, cut; at(i / 2, f, cut); auto& t = (*texts)[f]; if (t.first == 0) { Mesh<Polygon> a, b; one(a, b, t.second.substr(0, cut), t.second, i % 2, c); } else { Mesh<Triangle> a, b; one(a, b, t.second.substr(0, cut), t.second, i % 2, c); }
            }, [=](uint64_t i) { int f, cut; at(i / 2, f, cut); return "file " + num(f) + " cut after " + num(cut) + " bytes, read into a mesh " + (i % 2 ? "of two elements" : "without elements"); });
        }
        {   // the same operation refused again and again, on regions of many corners, seeds and holes
            static const int RP[] = {1, 9, 33, 130}, N[] = {40, 120};
            e.add("refused again and again", F->size() * 4 * 7 * 2, 2, [=](uint64_t i, Case& c) {
                Dec d(i); int f = d.take(F->size()), times = RP[d.take(4)], kind = d.take(7), n = N[d.take(2)]; Scn s; s.outer = g::bigPoly(kind, n); s.seeds = admissible(s, irregularSeeds(s.outer, 3 * n, kind)); double R = 0; for (auto& v : s.outer) R = std::max(R, std::max(std::fabs(v.x), std::fabs(v.y)));
                Region a = buildRegion(s, c), b = buildRegion(s, c); int nh = 0; for (V o : gridSeeds(s.outer, 41, 37)) { bool far = g::where(s.outer, o, 0.35) > 0; for (auto& h : b.getHoles()) far = far && g::dist(v(h.getCenter()), o) > 1; if (far && nh < n / 4) { a.addHole(CircularHole(Point(o.x, o.y), 0.25)); b.addHole(CircularHole(Point(o.x, o.y), 0.25)); nh++; } }
                std::string before = showRegion(a, true); c.op(nh * 2);
                for (int k = 0; k < times; k++) { std::string x = attempt([&]() {
                        if (f == 3) { Pts p{Point(-20 * R, -20 * R), Point(20 * R, -20 * R), Point(0, 40 * R)}; a.addHole(PolygonalHole(p)); } else if (f == 4) a.addHole(CircularHole(Point(0, 0), 9 * R)); else (*F)[f].run(a); }); c.op(); if (x.empty()) { c.fail("not-refused", (*F)[f].name); return; } if (k % 16 == 0 && dumpRegion(a) != dumpRegion(b)) { c.fail("refused-changes-region", "after " + num(k + 1) + " times: " + firstDiff(dumpRegion(b), dumpRegion(a))); return; } }
                if (showRegion(a, true) != before) { c.fail("refused-changes-region", firstDiff(before, showRegion(a, true))); return; }
                Pts more = P(irregularSeeds(s.outer, 50, 9)), more2 = more; a.addSeedPoints(more); b.addSeedPoints(more2); if (dumpRegion(a) != dumpRegion(b)) { c.fail("later-state", firstDiff(dumpRegion(b), dumpRegion(a))); return; }
                if (times == 1 || times == 33) { Pts s1 = a.getSeedPoints(), s2 = b.getSeedPoints(); TriangleVoronoiGenerator g1(s1, a), g2(s2, b); if (dumpMesh(g1.getMesh()) != dumpMesh(g2.getMesh())) { c.fail("later-mesh", ""); return; } c.op(2); }
                c.state(mc::mix(mc::hash_str(before), f * 256 + times));
            }, [=](uint64_t i) { Dec d(i); int f = d.take(F->size()), t = RP[d.take(4)], k = d.take(7); return (*F)[f].name + ", " + num(t) + " times, on outline kind " + num(k) + " of " + num(N[d.take(2)]) + " corners"; });
        }
        {   // lists of points no outline can be made of
            auto seqs = std::make_shared<std::vector<g::Poly>>(); for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) for (int x = 0; x < 9; x++) for (int y = 0; y < 9; y++) for (int z = 0; z < (th ? 10 : 4); z++) { g::Poly q; for (int k : {a, b, x, y}) q.push_back({(double)(k / 3), (double)(k % 3)}); if (z) { int w = th ? z - 1 : 2 * z; q.push_back({(double)(w / 3), (double)(w % 3)}); } seqs->push_back(q); }
            e.add("lists of points that are no outline", seqs->size() * 4, 4000, [=](uint64_t i, Case& c) {
                Dec d(i); int k = d.take(4); auto& q = (*seqs)[d.take(seqs->size())]; Pts p = P(q); std::string keep = hpts(p); std::vector<int> ix; for (size_t j = 0; j < q.size(); j++) ix.push_back(q.size() - 1 - j); std::vector<int> ixk = ix; c.op();
                std::string x = attempt([&]() { if (k == 0) Polygon a(p); if (k == 1) Region r(p); if (k == 2) PolygonalHole h(p); if (k == 3) Polygon a(ix, p); }); c.trivial = x.empty();
                if (hpts(p) != keep || ix != ixk) { c.fail("constructor-changes-points", firstDiff(keep, hpts(p))); return; } c.state(mc::mix(mc::hash_str(keep), k));
            }, [=](uint64_t i) { Dec d(i); int k = d.take(4); return num(k) + " of " + g::str((*seqs)[d.take(seqs->size())]); });
        }
    });
}
