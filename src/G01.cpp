// G01: measures of polygons, triangles and boxes against direct formulas, and their caches through histories.
#include "common.hpp"
#include <delynoi/models/neighbourhood/EdgeData.h>

struct Tol { double area, pt, len; };
static Tol tolFor(const g::Poly& q) {
    double X = 0, A = std::fabs(g::sarea(q)), L = 0; for (auto& v : q) { X = std::max(X, std::max(std::fabs(v.x), std::fabs(v.y))); L = std::max(L, g::dist(v, q[0])); }
    return {1e-9 * A + 1e-14 * X * L, 1e-9 * L + 1e-13 * X + 1e-13 * X * L * L / A, 1e-11 * L + 1e-14 * X};
}
static bool straight(const g::Poly& q) { int n = q.size(); for (int i = 0; i < n; i++) { V a = q[i], b = q[(i + 1) % n], c = q[(i + 2) % n]; if (std::fabs(g::orient(a, b, c)) < 1e-9 * g::dist(a, b) * g::dist(b, c)) return true; } return false; }
static bool convexQ(const g::Poly& q) { int n = q.size(), s = 0; for (int i = 0; i < n; i++) { V a = q[i], b = q[(i + 1) % n], c = q[(i + 2) % n]; int o = g::sgn(g::orient(a, b, c), 1e-9 * g::dist(a, b) * g::dist(b, c)); if (o) { if (s && o != s) return false; s = o; } } return true; }
static double diam(const g::Poly& q) { double m = 0; for (auto& a : q) for (auto& b : q) m = std::max(m, g::dist(a, b)); return m; }
static V average(const g::Poly& q) { double x = 0, y = 0; for (auto& p : q) { x += p.x - q[0].x; y += p.y - q[0].y; } return {q[0].x + x / q.size(), q[0].y + y / q.size()}; }
static bool near(V a, V b, double e) { return std::fabs(a.x - b.x) <= e && std::fabs(a.y - b.y) <= e; }

// one measure of polygon p whose outline is q; returns an empty string when it is right
enum { AREA, SAREA, DIAM, MAXD, CENT, AVER, CONV, CLOCK, NQ };
static std::string query(Polygon& p, Pts& pts, const g::Poly& q, int k, Case& c, bool exactStraight = true) {
    Tol t = tolFor(q); c.op();
    auto bad = [&](const std::string& what, const std::string& got, const std::string& want) { return what + " of " + g::str(q) + " is " + got + " instead of " + want; };
    auto dbl = [&](const std::string& what, double got, double want, double tol) { return std::fabs(got - want) <= tol ? std::string() : bad(what, num(got), num(want)); };
    switch (k) {
        case AREA: return dbl("area", std::fabs(p.getArea(pts)), std::fabs(g::sarea(q)), t.area);
        case SAREA: return dbl("signed area", p.signedArea(pts), g::sarea(q), t.area);
        case DIAM: return dbl("diameter", p.getDiameter(pts), diam(q), t.len);
        case MAXD: return dbl("greatest distance", p.getMaxDistance(pts), diam(q), t.len);
        case CENT: { V g = v(p.getCentroid(pts)), w = g::centroid(q); return near(g, w, t.pt) ? "" : bad("centroid", g::str(g), g::str(w)); }
        case AVER: { V g = v(p.getAverage(pts)), w = average(q); return near(g, w, t.pt) ? "" : bad("average", g::str(g), g::str(w)); }
        case CONV: { if (!exactStraight && straight(q)) return ""; bool g = p.isConvex(pts), w = convexQ(q); return g == w ? "" : bad("convexity", num(g), num(w)); }
        case CLOCK: { bool g = p.isClockwise(pts), w = g::sarea(q) < 0; return g == w ? "" : bad("clockwiseness", num(g), num(w)); }
    }
    return "";
}
static const char* QN[] = {"area", "signed-area", "diameter", "max-distance", "centroid", "average", "convexity", "clockwise"};
// everything that depends on the indexes only; id is the expected index list
static bool structure(Polygon& p, Pts& pts, const std::vector<int>& id, Case& c) {
    int n = id.size();
    if (p.getPoints() != id || p.numberOfSides() != n || ((const Polygon&)p).getPoints() != id) { c.fail("indexes", "polygon lists other indexes"); return false; }
    auto pp = p.getPoints(pts); bool same = (int)pp.size() == n; for (int i = 0; same && i < n; i++) same = v(pp[i]) == v(pts[id[i]]);
    if (!same) { c.fail("points", "polygon lists other points"); return false; }
    std::vector<IndexSegment> sg; sg.push_back(IndexSegment(1000, 1001)); p.getSegments(sg);
    same = (int)sg.size() == n + 1 && sg[0].getFirst() == 1000; for (int i = 0; same && i < n; i++) same = sg[i + 1].getFirst() == id[i] && sg[i + 1].getSecond() == id[(i + 1) % n];
    if (!same) { c.fail("segments", "the segments do not run along the outline"); return false; }
    std::string want = num(n); for (int x : id) want += " " + num(x);
    if (p.getString() != want) { c.fail("string", p.getString() + " instead of " + want); return false; }
    std::set<int> s(id.begin(), id.end()); int hi = *s.rbegin() + 2; c.op(5);
    for (int a = -1; a <= hi; a++) {
        if (p.isVertex(a) != (s.count(a) > 0)) { c.fail("isVertex", "corner " + num(a)); return false; }
        for (int b = -1; b <= hi; b++) { if (a == b || (n > 80 && std::abs(a - b) > 2 && (a * 31 + b) % 97)) continue; IndexSegment e(a, b); bool w = false; for (int i = 0; i < n; i++) w = w || (id[i] == a && id[(i + 1) % n] == b) || (id[i] == b && id[(i + 1) % n] == a);
            if (p.containsEdge(e) != w) { c.fail("containsEdge", "edge " + num(a) + "-" + num(b) + " of " + want); return false; } c.op(); }
    }
    return true;
}
static g::Poly variant(const g::Poly& p, int start, int dir) { g::Poly q = p; if (dir) std::reverse(q.begin(), q.end()); std::rotate(q.begin(), q.begin() + start % q.size(), q.end()); return q; }
static void checkPolygon(const g::Poly& q, Case& c, bool exactStraight, bool idx) {
    Pts pts = P(q); Polygon p(pts); Region r(pts); c.op(2);
    std::vector<int> id; for (size_t i = 0; i < q.size(); i++) id.push_back(i);
    if (!structure(p, pts, id, c)) return;
    for (int k = 0; k < NQ; k++) { std::string s = query(p, pts, q, k, c, exactStraight); if (!s.empty()) { c.fail(QN[k], s); return; } s = query(r, pts, q, k, c, exactStraight); if (!s.empty()) { c.fail(QN[k], "region: " + s); return; } }
    BoundingBox b = r.getBox(); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& v : q) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); }
    if (b.xMin() != x0 || b.xMax() != x1 || b.yMin() != y0 || b.yMax() != y1 || b.getWidth() != x1 - x0 || b.getHeight() != y1 - y0) { c.fail("bounding-box", g::str(q)); return; }
    if (idx) {      // the same outline as a polygon of a bigger point list
        Pts all; std::vector<int> ix(q.size()); all.push_back(Point(90, -90)); for (size_t k = q.size(); k-- > 0;) { ix[k] = all.size(); all.push_back(pts[k]); all.push_back(Point(50.0 + k, 70)); }
        Polygon m(ix, all); if (!structure(m, all, ix, c)) return;
        for (int k = 0; k < NQ; k++) { std::string s = query(m, all, q, k, c, exactStraight); if (!s.empty()) { c.fail(QN[k], "by index: " + s); return; } }
        m.fixCCW(all); g::Poly f = q; if (g::sarea(f) < 0) std::reverse(f.begin(), f.end()); std::vector<int> fi = ix; if (g::sarea(q) < 0) std::reverse(fi.begin(), fi.end());
        auto got = m.getPoints(); auto it = std::find(got.begin(), got.end(), fi[0]); if (it != got.end()) std::rotate(got.begin(), it, got.end());
        if (got != fi) { c.fail("fixCCW", "corners of " + g::str(q)); return; }
        for (int k = 0; k < NQ; k++) { std::string s = query(m, all, f, k, c, exactStraight); if (!s.empty()) { c.fail(QN[k], "after fixCCW: " + s); return; } }
    }
    uint64_t h = 1; for (auto& v : q) h = hv(h, v); c.state(h);
}
static const g::Affine PL[] = {{7.3, 0.4, 3.1, -2.7, "rotated"}, {0.13, 1.1, 100, 50, "small"}, {250, 2.0, -4000, 9000, "large"}, {1000, 0, 1e5, -2e5, "far"}, {0.05, 0, 0, 0, "tiny"}, {1, 0.4, 452000.25, 4181000.5, "geographic"}};

// ---- histories ----
static bool bigPool = false;
static const std::vector<g::Poly>& pool() {
    static std::vector<g::Poly> b; if (b.empty()) { b = {g::bigPoly(6, 90), g::bigPoly(2, 130), g::bigPoly(3, 66), g::bigPoly(0, 300)}; for (int k : {1, 2}) std::reverse(b[k].begin(), b[k].end()); }
    if (bigPool) return b;
    static std::vector<g::Poly> p{{{0, 0}, {10, 0}, {10, 10}, {0, 10}}, {{0, 0}, {3, 9}, {7, 1}}, {{5, 5}, {0, 5}, {0, 10}, {10, 10}, {10, 0}, {5, 0}}, {{-3, -1}, {-1, -1}, {-1, 0}, {-3, 0}}};   // ccw, cw, cw, ccw
    return p;
}
static const char* opName(int o) { static const char* n[] = {"area", "diameter", "centroid", "signed area", "fixCCW", "outline := square", "outline := triangle", "outline := L", "outline := box", "continue with a copy", "assign over a used polygon", "continue with an assigned copy", "turn it by its indexes, then fixCCW"}; return n[o]; }
static const int NOPS = 13;
// T is Polygon or Region
template <class T> static void history(const std::vector<int>& ops, int start, Case& c) {
    Pts pts = P(pool()[start]); g::Poly q = pool()[start]; T* p = new T(pts); std::string at = "start " + num(start);
    auto full = [&](T& x, const std::string& who) { for (int k : {CENT, AREA, DIAM, SAREA, MAXD, AVER, CONV, CLOCK}) { std::string s = query(x, pts, q, k, c); if (!s.empty()) { c.fail(QN[k], who + at + ": " + s); return false; } } return true; };
    for (int o : ops) {
        at += std::string("; ") + opName(o); std::string s;
        if (o <= 3) { static const int m[] = {AREA, DIAM, CENT, SAREA}; s = query(*p, pts, q, m[o], c); if (!s.empty()) { c.fail(QN[m[o]], at + ": " + s); break; } }
        else if (o == 4) { p->fixCCW(pts); c.op(); if (g::sarea(q) < 0) std::reverse(q.begin(), q.end());
            g::Poly got; for (int k : p->getPoints()) got.push_back(v(pts[k])); if (got != q) { auto it = std::find(got.begin(), got.end(), q[0]); if (it != got.end()) std::rotate(got.begin(), it, got.end()); if (got != q) { c.fail("fixCCW", at + ": " + g::str(got)); break; } } }
        else if (o <= 8) { q = pool()[o - 5]; pts = P(q); p->mutate(pts); c.op(); }
        else if (o == 9) { T* n = new T(*p); delete p; p = n; c.op(); }
        else if (o == 12) { if (g::sarea(q) < 0) continue; std::reverse(p->getPoints().begin(), p->getPoints().end()); bool cw = g::sarea(q) > 0; if (p->isClockwise(pts) != cw) { c.fail("isClockwise", at); break; } p->fixCCW(pts); c.op(3); if (g::sarea(q) < 0) std::reverse(q.begin(), q.end()); }
        else if (o == 10) { Pts o2 = P(pool()[0]); T other(o2); other.getArea(o2); other.getCentroid(o2); other.getDiameter(o2); other = *p; if (!full(other, "assigned over: ")) break; *p = other; c.op(5); }
        else { T n; n = *p; delete p; p = new T(n); c.op(2); }
        uint64_t h = 5; for (auto& x : q) h = hv(h, x); c.state(h);
    }
    if (!c.failed()) { T cp(*p); if (full(*p, "")) full(cp, "copy: "); }
    delete p;
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = all measures of one polygon given in one way, or one history of queries and changes; every one is non-trivial";
        bool th = e.thorough();
        auto p3 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(3, 3, 3, 9, true)); auto p4 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(4, 4, 3, th ? 7 : 6, true)), p5 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(5, 5, 3, th ? 5 : 4, true));
        auto text = [](const g::Poly& q) { return "outline " + g::str(q); };
        {   auto get = [=](uint64_t i) { Dec d(i); auto& p = (*p3)[d.take(p3->size())]; int dir = d.take(2), st = d.take(9); return variant(p, st, dir); };
            e.add("3x3 polygons, every start and direction", p3->size() * 18, 400, [=](uint64_t i, Case& c) { checkPolygon(get(i), c, true, true); }, [=](uint64_t i) { return text(get(i)); }); }
        {   auto get = [=](uint64_t i) { Dec d(i); auto& p = (*p4)[d.take(p4->size())]; int dir = d.take(2), st = d.take(2); return variant(p, 2 * st, dir); };
            e.add("4x4 polygons", p4->size() * 4, 2000, [=](uint64_t i, Case& c) { checkPolygon(get(i), c, true, false); }, [=](uint64_t i) { return text(get(i)); }); }
        {   auto get = [=](uint64_t i) { Dec d(i); auto& p = (*p5)[d.take(p5->size())]; int dir = d.take(2); return variant(p, 1, dir); };
            e.add("5x5 polygons", p5->size() * 2, 1000, [=](uint64_t i, Case& c) { checkPolygon(get(i), c, true, true); }, [=](uint64_t i) { return text(get(i)); }); }
        {   int np = sizeof(PL) / sizeof(*PL); auto get = [=](uint64_t i) { Dec d(i); auto& a = PL[d.take(np)]; auto& p = (*p3)[d.take(p3->size())]; int dir = d.take(2); return g::apply(a, variant(p, 1, dir)); };
            e.add("3x3 polygons, placements", p3->size() * 2 * np, 400, [=](uint64_t i, Case& c) { checkPolygon(get(i), c, false, true); }, [=](uint64_t i) { return text(get(i)); });
            auto get4 = [=](uint64_t i) { Dec d(i); auto& a = PL[d.take(np)]; auto& p = (*p5)[d.take(p5->size())]; int dir = d.take(2); return g::apply(a, variant(p, 1, dir)); };
            e.add("5x5 polygons, placements", p5->size() * 2 * np, 1000, [=](uint64_t i, Case& c) { checkPolygon(get4(i), c, false, false); }, [=](uint64_t i) { return text(get4(i)); }); }
        {   // details much smaller than the sides, at every corner
            int np = sizeof(PL) / sizeof(*PL); auto get = [=](uint64_t i) { Dec d(i); int how = d.take(4), st = DETAIL[d.take(4)], k = d.take(9), dir = d.take(2), pl = d.take(np + 1), rot = d.take(3); auto& p = (*p3)[d.take(p3->size())]; if (k >= (int)p.size()) return g::Poly(); g::Poly q = refineCorner(p, k, st, how); if (q.empty()) return q; for (auto& x : q) x = (1.0 / 128) * x; q = variant(q, k + rot, dir); if (pl < np) q = g::apply(g::Affine{PL[pl].sx / 78, PL[pl].rot, PL[pl].tx, PL[pl].ty, ""}, q); return q; };
            e.add("3x3 polygons with a small detail at one corner", p3->size() * 4 * 4 * 9 * 2 * (np + 1) * 3, 5000, [=](uint64_t i, Case& c) { g::Poly q = get(i); if (q.empty()) { c.trivial = true; return; } checkPolygon(q, c, false, i % 5 == 0); }, [=](uint64_t i) { return text(get(i)); }); }
        {   // convex polygons with many corners (calipers), whole and flattened, every starting corner
            auto get = [=](uint64_t i) { Dec d(i); int n = 3 + d.take(th ? 60 : 30), st = d.take(n), fl = d.take(4), dir = d.take(2); g::Poly q; double k[] = {1, 0.2, 0.01, 3}; for (int t = 0; t < n; t++) q.push_back({10 * std::cos(2 * M_PI * t / n + 0.1), k[fl] * 10 * std::sin(2 * M_PI * t / n + 0.1)}); return variant(q, st, dir); };
            e.add("ellipses", (uint64_t)(th ? 60 : 30) * 62 * 4 * 2 / 2, 200, [=](uint64_t i, Case& c) { checkPolygon(get(i), c, false, false); }, [=](uint64_t i) { return text(get(i)); }); }
        {   // many corners
            static const int N[] = {34, 50, 63, 64, 65, 100, 128, 129, 200, 256, 257, 300, 500, 1000}; int nn = th ? 14 : 13, np = sizeof(PL) / sizeof(*PL);
            auto get = [=](uint64_t i) { Dec d(i); int dir = d.take(2), st = d.take(4), pl = d.take(3), k = d.take(7), n = N[d.take(nn)]; g::Poly q = g::bigPoly(k, n); n = q.size(); q = variant(q, st == 0 ? 0 : st == 1 ? n / 3 : st == 2 ? n / 2 + 1 : n - 1, dir); return pl ? g::apply(PL[(k + pl + st) % np], q) : q; };
            auto tx = [=](uint64_t i) { Dec d(i); int dir = d.take(2), st = d.take(4), pl = d.take(3), k = d.take(7), n = N[d.take(nn)]; return std::string(g::BIG[k]) + " of about " + num(n) + " corners, start " + num(st) + ", placement " + num(pl) + (dir ? ", clockwise" : ""); };
            e.add("outlines of many corners", 2 * 4 * 3 * 7 * nn, 12, [=](uint64_t i, Case& c) { Dec d(i); d.take(24); checkPolygon(get(i), c, false, true); }, tx);
            int D = th ? 4 : 3; uint64_t tot = 4; for (int k = 0; k < D; k++) tot *= NOPS;
            auto dec = [=](uint64_t i, int& st) { Dec d(i); st = d.take(4); std::vector<int> o; for (int k = 0; k < D; k++) o.push_back(d.take(NOPS)); return o; };
            e.add("histories of a polygon of many corners", tot * 2, 400, [=](uint64_t i, Case& c) { int st; auto o = dec(i / 2, st); bigPool = true; if (i % 2) history<Region>(o, st, c); else history<Polygon>(o, st, c); bigPool = false; },
                [=](uint64_t i) { int st; auto o = dec(i / 2, st); std::string s = std::string(i % 2 ? "region" : "polygon") + ", start " + num(st); for (int k : o) s += std::string("; ") + opName(k); return s; }); }
        {   int D = th ? 6 : 5; uint64_t tot = pool().size(); for (int k = 0; k < D; k++) tot *= NOPS;
            auto dec = [=](uint64_t i, int& st) { Dec d(i); st = d.take(pool().size()); std::vector<int> o; for (int k = 0; k < D; k++) o.push_back(d.take(NOPS)); return o; };
            auto txt = [=](uint64_t i) { int st; auto o = dec(i, st); std::string s = "start " + num(st); for (int k : o) s += std::string("; ") + opName(k); return s; };
            e.add("histories of a polygon", tot, 5000, [=](uint64_t i, Case& c) { int st; auto o = dec(i, st); history<Polygon>(o, st, c); }, txt);
            uint64_t t2 = pool().size(); int D2 = th ? 5 : 4; for (int k = 0; k < D2; k++) t2 *= NOPS;
            auto dec2 = [=](uint64_t i, int& st) { Dec d(i); st = d.take(pool().size()); std::vector<int> o; for (int k = 0; k < D2; k++) o.push_back(d.take(NOPS)); return o; };
            e.add("histories of a region as a polygon", t2, 2000, [=](uint64_t i, Case& c) { int st; auto o = dec2(i, st); history<Region>(o, st, c); }, [=](uint64_t i) { int st; auto o = dec2(i, st); std::string s = "start " + num(st); for (int k : o) s += std::string("; ") + opName(k); return s; });
        }
        {   // triangles: every ordered triple of a 5x5 lattice in every placement
            int np = sizeof(PL) / sizeof(*PL) + 1;
            auto get = [=](uint64_t i, int& m) { Dec d(i); m = d.take(np); V a{(double)d.take(5), (double)d.take(5)}, b{(double)d.take(5), (double)d.take(5)}, c{(double)d.take(5), (double)d.take(5)}; return g::Poly{a, b, c}; };
            e.add("circumcenters", 15625ull * np, 1000, [=](uint64_t i, Case& c) {
                int m; g::Poly t = get(i, m); if (g::orient(t[0], t[1], t[2]) == 0) { c.trivial = true; return; }
                g::Poly q = m ? g::apply(PL[m - 1], t) : t; Pts pts{Point(77, 78)}; for (auto& x : P(q)) pts.push_back(x); std::vector<int> ix{3, 1, 2}; V want; double r; g::circumcircle(q[2], q[0], q[1], want, r);
                double X = 1; for (auto& x : q) X = std::max(X, std::max(std::fabs(x.x), std::fabs(x.y)));
                double e = 1e-9 * (r + 1) + 1e-14 * X * X * X / std::fabs(g::sarea(q));
                Triangle a(ix, pts); UniqueList<Point> ul; Point first(1e7, 1); ul.push_back(first); int pre = ul.size(); Triangle b(ix, pts, ul), b2(ix, pts, ul); std::vector<Point> lst(2, Point(5, 5)); Triangle d(ix, pts, lst), d2(ix, pts, lst); c.op(6);
                for (Triangle* x : {&a, &b, &b2, &d, &d2}) if (!near(v(x->getCircumcenter()), want, e)) { c.fail("circumcenter", g::str(v(x->getCircumcenter())) + " for " + g::str(q)); return; }
                if (b.getCircumcenterIndex() != pre || b2.getCircumcenterIndex() != pre || ul.size() != pre + 1 || !(v(ul[pre]) == v(b.getCircumcenter()))) { c.fail("circumcenter-index", "unique list, " + g::str(q)); return; }
                if (d.getCircumcenterIndex() != 2 || d2.getCircumcenterIndex() != 3 || lst.size() != 4 || !(v(lst[3]) == v(d2.getCircumcenter()))) { c.fail("circumcenter-index", "list, " + g::str(q)); return; }
                for (int u = 0; u < 3; u++) for (int w = 0; w < 3; w++) if (u != w) { EdgeData ed(ix[u], ix[w]); if (a.thirdPoint(ed) != ix[3 - u - w]) { c.fail("thirdPoint", num(ix[u]) + "-" + num(ix[w])); return; } c.op(); }
                if (a.isNull() || !Triangle().isNull()) { c.fail("isNull", ""); return; }
                c.state(hv(hv(hv(9, q[0]), q[1]), q[2]));
            }, [=](uint64_t i) { int m; g::Poly t = get(i, m); return "triangle " + g::str(m ? g::apply(PL[m - 1], t) : t); });
        }
        {   // boxes given by any two opposite corners
            auto get = [=](uint64_t i) { Dec d(i); double x = d.take(5), y = d.take(5), z = d.take(5), w = d.take(5); return g::Poly{{x - 2, 2.5 * y - 3}, {z - 2, 2.5 * w - 3}}; };
            e.add("bounding boxes", 625, 40, [=](uint64_t i, Case& c) {
                g::Poly q = get(i); V a = q[0], b = q[1]; BoundingBox x(Point(a.x, a.y), Point(b.x, b.y)); c.op(6); std::string t = g::str(q);
                double x0 = std::min(a.x, b.x), x1 = std::max(a.x, b.x), y0 = std::min(a.y, b.y), y1 = std::max(a.y, b.y);
                if (x.xMin() != x0 || x.xMax() != x1 || x.yMin() != y0 || x.yMax() != y1 || x.getWidth() != x1 - x0 || x.getHeight() != y1 - y0) { c.fail("box-extent", t); return; }
                if (!(v(x.getFirst()) == a) || !(v(x.getSecond()) == b)) { c.fail("box-corners", t); return; }
                for (double u = -3; u <= 3; u += 0.5) for (double w = -4; w <= 8; w += 0.5) { if (x.contains(Point(u, w)) != (u >= x0 && u <= x1 && w >= y0 && w <= y1)) { c.fail("box-contains", t + " point " + g::str(V{u, w})); return; } c.op(); }
                std::vector<PointSegment> s; x.getSegments(s); if (s.size() != 4) { c.fail("box-segments", t); return; }
                V cs[4] = {a, {b.x, a.y}, b, {a.x, b.y}}; bool seen[4] = {0, 0, 0, 0};
                for (auto& k : s) for (int m = 0; m < 4; m++) if (!seen[m] && ((v(k.getFirst()) == cs[m] && v(k.getSecond()) == cs[(m + 1) % 4]) || (v(k.getSecond()) == cs[m] && v(k.getFirst()) == cs[(m + 1) % 4]))) { seen[m] = true; break; }
                if (!(seen[0] && seen[1] && seen[2] && seen[3])) { c.fail("box-segments", t); return; }
                for (uint64_t j = 0; j < 625; j++) { g::Poly r = get(j); BoundingBox y(Point(r[0].x, r[0].y), Point(r[1].x, r[1].y)); bool w = (r[0] == a && r[1] == b) || (r[0] == b && r[1] == a); if ((x == y) != w) { c.fail("box-equality", t + " and " + g::str(r)); return; } c.op(); }
                c.state(hv(hv(3, a), b));
            }, [=](uint64_t i) { return "corners " + g::str(get(i)); });
        }
    });
}
