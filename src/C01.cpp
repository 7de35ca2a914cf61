// C01: discretization of circles and arcs for every configured grade; configuration histories.
#include "common.hpp"
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/models/polygon/Circle.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/geometryFunctions.h>

static bool near(V a, V b, double e) { return std::fabs(a.x - b.x) <= e && std::fabs(a.y - b.y) <= e; }
static V polar(V c, double r, double deg) { return {c.x + r * std::cos(deg * M_PI / 180), c.y + r * std::sin(deg * M_PI / 180)}; }
static bool ringOk(const Pts& p, V ct, double r, int g, Case& c, const std::string& what) {
    if ((int)p.size() != g) { c.fail("number-of-corners", what + ": " + num(p.size()) + " instead of " + num(g)); return false; }
    double e = 1e-12 * (r + std::fabs(ct.x) + std::fabs(ct.y));
    for (int i = 0; i < g; i++) if (!near(v(p[i]), polar(ct, r, 360.0 * i / g), e)) { c.fail("corner", what + ": corner " + num(i) + " of " + num(g) + " is " + g::str(v(p[i])) + " instead of " + g::str(polar(ct, r, 360.0 * i / g))); return false; }
    for (int i = 0; i < g; i++) if (std::fabs(g::dist(v(p[i]), ct) - r) > e) { c.fail("radius", what + ": corner " + num(i)); return false; }
    if (g >= 3 && g::sarea(vs(p)) <= 0) { c.fail("direction", what); return false; }
    return true;
}
static bool segsOk(const std::vector<IndexSegment>& s, int off, int g, Case& c, const std::string& what) {
    if ((int)s.size() != g) { c.fail("ring", what + ": " + num(s.size()) + " segments for " + num(g) + " corners"); return false; }
    for (int i = 0; i < g; i++) if (s[i].getFirst() != off + i || s[i].getSecond() != off + (i + 1) % g) { c.fail("ring", what + ": segment " + num(i) + " is " + s[i].getString()); return false; }
    return true;
}
static const V CT[] = {{0, 0}, {-7.25, 3.5}, {1234.5, -987.6}, {0.001, 1e5}};
static const double RD[] = {1, 0.01, 12.5, 3000, 0.3333};
static void circle(int g, V ct, double r, Case& c) {
    DelynoiConfig::instance()->setDiscretizationGrade(g);
    Circle k(r, Point(ct.x, ct.y)); if (!ringOk(k.discretizeCircle(), ct, r, g, c, "circle") || !ringOk(k.discretizeCircle(), ct, r, g, c, "circle asked again")) return; c.op(3);
    if (g < 3) { c.state(g); return; }
    CircularHole h(Point(ct.x, ct.y), r); c.op(3);
    if (!ringOk(h.getPoints(), ct, r, g, c, "hole")) return;
    std::vector<IndexSegment> s; h.getSegments(s, 0); if (!segsOk(s, 0, g, c, "hole")) return; s.clear(); h.getSegments(s, 17); if (!segsOk(s, 17, g, c, "hole with offset")) return;
    if (!(v(h.getCenter()) == ct)) { c.fail("center", g::str(v(h.getCenter()))); return; }
    // the grade in force when the hole is made counts; later changes leave it alone, copies included
    Hole copy(h); DelynoiConfig::instance()->setDiscretizationGrade(g + 5); if (!ringOk(h.getPoints(), ct, r, g, c, "hole after the grade changed") || !ringOk(copy.getPoints(), ct, r, g, c, "copy of a hole")) return;
    if (!ringOk(Circle(k).discretizeCircle(), ct, r, g + 5, c, "circle after the grade changed")) return; c.op(5);
    if (g <= 200 && r > 0.1) {
        V ex = {ct.x, ct.y}; Pts o{Point(ex.x - 3 * r, ex.y - 3 * r), Point(ex.x + 3 * r, ex.y - 3 * r), Point(ex.x + 3 * r, ex.y + 3 * r), Point(ex.x - 3 * r, ex.y + 3 * r)}; Region reg(o); reg.addHole(copy); c.op(2);
        if (reg.getHoles().size() != 1 || !ringOk(reg.getHoles()[0].getPoints(), ct, r, g, c, "hole of a region")) { c.fail("region-hole", "grade " + num(g)); return; }
        std::vector<IndexSegment> rs; reg.getSegments(rs); if (rs.size() != 4u + g) { c.fail("region-segments", num(rs.size())); return; } rs.erase(rs.begin(), rs.begin() + 4); if (!segsOk(rs, 4, g, c, "hole of a region")) return;
        Pts rp = reg.getRegionPoints(); if (rp.size() != 4u + g) { c.fail("region-points", num(rp.size())); return; } rp.erase(rp.begin(), rp.begin() + 4); if (!ringOk(rp, ct, r, g, c, "points of a region")) return;
        for (int i = 0; i < 24; i++) { V a = polar(ct, 0.9 * r * std::cos(M_PI / g), 15.0 * i + 1), b = polar(ct, 1.01 * r, 15.0 * i + 1); c.op(2); if (!copy.containsPoint(Point(a.x, a.y)) || copy.containsPoint(Point(b.x, b.y))) { c.fail("containsPoint", "grade " + num(g)); return; } }
    }
    c.state(hv(mc::mix(g, (uint64_t)(r * 1e6)), ct));
}
static void arc(int g, V ct, double r, double a, double b, Case& c) {
    DelynoiConfig::instance()->setDiscretizationGrade(g); Pts p = delynoi_utilities::generateArcPoints(Point(ct.x, ct.y), r, a, b); c.op();
    if ((int)p.size() != g + 1) { c.fail("arc-points", num(p.size()) + " instead of " + num(g + 1)); return; }
    double e = 1e-12 * (r + std::fabs(ct.x) + std::fabs(ct.y));
    for (int i = 0; i <= g; i++) if (!near(v(p[i]), polar(ct, r, a + (b - a) * i / g), e)) { c.fail("arc-point", "point " + num(i) + " of the arc " + num(a) + ".." + num(b) + " is " + g::str(v(p[i]))); return; }
    c.state(hv(mc::mix(mc::mix(g, (uint64_t)(int64_t)a), (uint64_t)(int64_t)b), ct));
}
// ---- configuration histories ----
static const int GR[] = {12, 3, 30}; static const double TL[] = {1e-5, 1e-3, 1e-8}; static const int SC[] = {100000, 1000, 2000000}; static const int PR[] = {6, 3, 12};
static const int NSET = 3 * 4 + 3;
static std::string setName(int o) { return o < 3 ? "grade " + num(GR[o]) : o < 6 ? "tolerance " + num(TL[o - 3]) : o < 9 ? "scale " + num(SC[o - 6]) : o < 12 ? "precision " + num(PR[o - 9]) : std::string(o == 12 ? "Precision::small" : o == 13 ? "Precision::mid" : "Precision::large"); }
static bool effects(int gr, double tol, int sc, int pr, bool full, Case& c, const std::string& at) {
    DelynoiConfig* k = DelynoiConfig::instance(); c.op(4);
    if (k->getDiscretizationGrade() != gr || k->getTolerance() != tol || k->getScale() != sc || k->getPrecision() != pr) { c.fail("configuration", at + ": grade " + num(k->getDiscretizationGrade()) + " tolerance " + num(k->getTolerance()) + " scale " + num(k->getScale()) + " precision " + num(k->getPrecision())); return false; }
    if (!full) return true;
    CircularHole h(Point(1, 2), 3); if (!ringOk(h.getPoints(), {1, 2}, 3, gr, c, at)) return false; if ((int)delynoi_utilities::generateArcPoints(Point(0, 0), 1, 0, 90).size() != gr + 1) { c.fail("arc-points", at); return false; }
    Point a(0.25, 0.5), b(0.25 + tol / 2, 0.5 - tol / 2), d(0.25, 0.5 + 2 * tol); UniqueList<Point> u; c.op(8);
    if (!(a == b) || a == d || a < b || b < a || !(a < d) || d < a || u.push_back(a) != 0 || u.push_back(b) != 0 || u.push_back(d) != 1) { c.fail("tolerance", at + ": points"); return false; }
    PointSegment s(Point(0, 0), Point(1, 0)); if (!s.contains(Point(0.5, tol / 2)) || s.contains(Point(0.5, 2 * tol)) || !geometry_functions::collinear(Point(0, 0), Point(1, 0), Point(2, tol / 4)) || geometry_functions::collinear(Point(0, 0), Point(1, 0), Point(2, 4 * tol))) { c.fail("tolerance", at + ": segments"); return false; }
    // a notch whose sides cross the boundary at thirds of a unit: the new corners lie on the grid of the scale
    Pts o{Point(0, 0), Point(10, 0), Point(10, 10), Point(0, 10)}, hp{Point(4, -1), Point(6, -1), Point(6, 1), Point(5, 3)}; Region r(o); r.addHole(PolygonalHole(hp)); c.op(3); bool found = false;
    for (auto& p : r.getRegionPoints()) { V q = v(p); for (double x : {q.x, q.y}) if (std::fabs(x * sc - std::round(x * sc)) > 1e-5) { c.fail("scale", at + ": corner " + g::str(q) + " is off the grid of 1/" + num(sc)); return false; } if (near(q, {4.25, 0}, 2.0 / sc)) found = true; }
    if (!found || !r.getHoles().empty()) { c.fail("scale", at + ": no corner where the notch begins"); return false; }
    std::vector<Point> mp{Point(0.1, 1.0 / 3), Point(2, 0), Point(1, 1)}; std::vector<int> ix{0, 1, 2}; std::vector<Polygon> el(1, Polygon(ix, mp)); Mesh<Polygon> m(mp, el, new SegmentMap, new PointMap); m.printInFile("c.txt"); c.op();
    std::ifstream in(std::string(getenv("HOME")) + "/c.txt"); std::string w, x, y; in >> w >> x >> y; char bx[64], by[64]; snprintf(bx, 64, "%.*f", pr, 0.1); snprintf(by, 64, "%.*f", pr, 1.0 / 3);
    if (x != bx || y != by) { c.fail("precision", at + ": printed " + x + " " + y); return false; }
    return true;
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one circle or arc at one grade, or one sequence of configuration changes; every one is non-trivial";
        bool th = e.thorough(); int G = th ? 1500 : 400, nC = 4, nR = 5;
        auto dc = [=](uint64_t i, int& g, V& c, double& r) { Dec d(i); c = CT[d.take(nC)]; r = RD[d.take(nR)]; g = d.take(G) + 1; };
        e.add("circles", (uint64_t)G * nC * nR, 40, [=](uint64_t i, Case& c) { int g; V ct; double r; dc(i, g, ct, r); circle(g, ct, r, c); }, [=](uint64_t i) { int g; V ct; double r; dc(i, g, ct, r); return "grade " + num(g) + " center " + g::str(ct) + " radius " + num(r); });
        static const int BG[] = {401, 512, 719, 720, 1000, 1024, 3600, 4097, 10000, 65536}; auto db = [=](uint64_t i, int& g, V& c, double& r) { Dec d(i); c = CT[d.take(nC)]; r = RD[d.take(nR)]; g = BG[d.take(10)]; };
        e.add("circles and arcs of many corners", 10 * nC * nR, 1, [=](uint64_t i, Case& c) { int g; V ct; double r; db(i, g, ct, r); circle(g, ct, r, c); arc(g, ct, r, 0, 360, c); arc(g, ct, r, 270, -90.5, c); }, [=](uint64_t i) { int g; V ct; double r; db(i, g, ct, r); return "grade " + num(g) + " center " + g::str(ct) + " radius " + num(r); });
        static const double AN[] = {0, 90, 360, -45, 180, 33.3, 270, 720, 1e-3, -720, -540, -400, 1080, 3600}; const int nAN = 14; int GA = th ? 400 : 120;
        auto da = [=](uint64_t i, int& g, V& c, double& r, double& a, double& b) { Dec d(i); a = AN[d.take(nAN)]; b = AN[d.take(nAN)]; c = CT[d.take(nC)]; r = RD[d.take(nR)]; g = d.take(GA) + 1; };
        e.add("arcs", (uint64_t)nAN * nAN * nC * nR * GA, 500, [=](uint64_t i, Case& c) { int g; V ct; double r, a, b; da(i, g, ct, r, a, b); arc(g, ct, r, a, b, c); }, [=](uint64_t i) { int g; V ct; double r, a, b; da(i, g, ct, r, a, b); return "grade " + num(g) + " center " + g::str(ct) + " radius " + num(r) + " from " + num(a) + " to " + num(b); });
        int D = th ? 5 : 4; uint64_t n = 1; for (int k = 0; k < D; k++) n *= NSET;
        auto seq = [=](uint64_t i) { Dec d(i); std::vector<int> o; for (int k = 0; k < D; k++) o.push_back(d.take(NSET)); return o; };
        e.add("configuration histories", n, 500, [=](uint64_t i, Case& c) {
            DelynoiConfig* k = DelynoiConfig::instance(); k->setDiscretizationGrade(12); k->setTolerance(1e-5); k->setScale(100000); k->setPrecision(6); int gr = 12, sc = 100000, pr = 6; double tol = 1e-5; std::string at; c.op(4);
            auto ops = seq(i); for (size_t s = 0; s < ops.size(); s++) { int o = ops[s]; at += (s ? "; " : "") + setName(o); k = DelynoiConfig::instance(); c.op();
                if (o < 3) k->setDiscretizationGrade(gr = GR[o]); else if (o < 6) k->setTolerance(tol = TL[o - 3]); else if (o < 9) k->setScale(sc = SC[o - 6]); else if (o < 12) k->setPrecision(pr = PR[o - 9]);
                else { k->setPrecision(o == 12 ? Precision::small : o == 13 ? Precision::mid : Precision::large); pr = o == 12 ? 6 : o == 13 ? 10 : 16; }
                if (!effects(gr, tol, sc, pr, s + 1 == ops.size() || s == 0, c, at)) return;
                c.state(mc::mix(mc::mix(mc::mix(mc::mix(7, gr), (uint64_t)(tol * 1e12)), sc), pr)); }
        }, [=](uint64_t i) { std::string s; for (int o : seq(i)) s += (s.empty() ? "" : "; ") + setName(o); return s; });
        e.add("configuration at the start", 1, 1, [](uint64_t, Case& c) { effects(12, 1e-5, 100000, 6, true, c, "start"); if (DelynoiConfig::instance() != DelynoiConfig::instance()) c.fail("configuration", "several instances"); c.state(1); }, [](uint64_t) { return std::string("fresh process"); });
    });
}
