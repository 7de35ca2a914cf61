// G02: polygon triangulators against an exact tiling oracle.
#include "common.hpp"
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>

static g::Poly variant(const g::Poly& p, int start, int dir) { g::Poly q = p; if (dir) std::reverse(q.begin(), q.end()); std::rotate(q.begin(), q.begin() + start % q.size(), q.end()); return q; }
static bool straight(const g::Poly& q) { int n = q.size(); for (int i = 0; i < n; i++) { V a = q[i], b = q[(i + 1) % n], c = q[(i + 2) % n]; if (std::fabs(g::orient(a, b, c)) < 1e-9 * g::dist(a, b) * g::dist(b, c)) return true; } return false; }
static bool convexQ(const g::Poly& q) { int n = q.size(), s = 0; for (int i = 0; i < n; i++) { V a = q[i], b = q[(i + 1) % n], c = q[(i + 2) % n]; int o = g::sgn(g::orient(a, b, c), 1e-9 * g::dist(a, b) * g::dist(b, c)); if (o) { if (s && o != s) return false; s = o; } } return true; }

// triangles over `pts` cover the outline `id` exactly once; center: index of the one added point or -1
static bool tiles(std::vector<Triangle>& ts, const Pts& pts, const std::vector<int>& id, int center, const std::string& who, Case& c) {
    g::Poly q; for (int k : id) q.push_back(v(pts[k])); double A = g::sarea(q), sum = 0, X = 0; int n = id.size(); for (auto& x : q) X = std::max(X, g::dist(x, q[0]));
    std::set<int> own(id.begin(), id.end()); if (center >= 0) own.insert(center);
    std::set<std::pair<int, int>> e;
    size_t want = center >= 0 ? n : n - 2;
    if (ts.size() != want) { c.fail(who + "-count", num(ts.size()) + " triangles for a polygon of " + num(n) + " corners " + g::str(q)); return false; }
    for (auto& t : ts) {
        std::vector<int> k = t.getPoints(); if (k.size() != 3) { c.fail(who + "-triangle", num(k.size()) + " corners in a triangle of " + g::str(q)); return false; }
        for (int x : k) if (!own.count(x)) { c.fail(who + "-foreign-corner", "triangle " + t.getString() + " uses point " + num(x) + " which is no corner of " + g::str(q)); return false; }
        double a = g::orient(v(pts[k[0]]), v(pts[k[1]]), v(pts[k[2]])) / 2;
        if (std::fabs(a) < 1e-12 * X * X) { c.fail(who + "-degenerate", "triangle " + g::str(v(pts[k[0]])) + g::str(v(pts[k[1]])) + g::str(v(pts[k[2]])) + " of " + g::str(q)); return false; }
        if (who == "delaunay" ? a < 0 : (a < 0) != (A < 0)) { c.fail(who + "-direction", "triangle " + t.getString() + " of " + g::str(q)); return false; }
        sum += std::fabs(a); if (a < 0) std::swap(k[1], k[2]);
        for (int i = 0; i < 3; i++) if (!e.insert({k[i], k[(i + 1) % 3]}).second) { c.fail(who + "-overlap", "edge " + num(k[i]) + "-" + num(k[(i + 1) % 3]) + " is used twice in one direction, polygon " + g::str(q)); return false; }
        c.op();
    }
    if (std::fabs(sum - std::fabs(A)) > 1e-9 * std::fabs(A)) { c.fail(who + "-area", "the triangles measure " + num(sum) + ", the polygon " + g::str(q) + " " + num(A)); return false; }
    std::set<std::pair<int, int>> b; for (int i = 0; i < n; i++) { int x = id[i], y = id[(i + 1) % n]; if (A > 0) b.insert({x, y}); else b.insert({y, x}); }
    for (auto& x : e) if (!e.count({x.second, x.first}) && !b.count(x)) { c.fail(who + "-gap", "edge " + num(x.first) + "-" + num(x.second) + " has one triangle but is no side of " + g::str(q)); return false; }
    for (auto& x : b) if (!e.count(x)) { c.fail(who + "-side-missing", "side " + num(x.first) + "-" + num(x.second) + " of " + g::str(q)); return false; }
    return true;
}
static bool unchanged(const Pts& before, const Pts& now, size_t extra) {
    if (now.size() != before.size() + extra) return false;
    for (size_t i = 0; i < before.size(); i++) if (!(v(before[i]) == v(now[i]))) return false;
    return true;
}
// mode: how the polygon refers to its points. 0 identity, 1 reversed list with other points in between, 2 the list starts with points inside the polygon and copies of its corners, 3 it has points at and next to the average of the corners
static void run(const g::Poly& q, int mode, bool ear, Case& c) {
    Pts pts; std::vector<int> ix(q.size());
    V in = q[0]; { g::Domain d; d.outer = q; for (int i = 1; i < 40; i++) { V t = q[0] + (i / 40.0) * (q[q.size() / 2] - q[0]); if (d.where(t, 1e-6) > 0) in = t; } }
    if (mode == 0) { pts = P(q); for (size_t i = 0; i < q.size(); i++) ix[i] = i; }
    else if (mode == 1) { for (size_t k = q.size(); k-- > 0;) { pts.push_back(Point(q[k].x + 31, q[k].y - 17.5)); ix[k] = pts.size(); pts.push_back(Point(q[k].x, q[k].y)); } pts.push_back(Point(-3, 5)); }
    else if (mode == 3) { V a{0, 0}; for (auto& k : q) { a.x += (k.x - q[0].x) / q.size(); a.y += (k.y - q[0].y) / q.size(); } a = a + q[0]; pts.push_back(Point(a.x + 4e-6, a.y - 3e-6)); pts.push_back(Point(a.x, a.y)); for (size_t k = 0; k < q.size(); k++) { ix[k] = pts.size(); pts.push_back(Point(q[k].x, q[k].y)); } pts.push_back(Point(a.x - 6e-6, a.y)); }
    else { pts.push_back(Point(in.x, in.y)); for (auto& x : q) pts.push_back(Point(x.x, x.y)); pts.push_back(Point(in.x + 100, in.y)); for (size_t k = 0; k < q.size(); k++) { size_t j = (k * 2 + 1) % q.size(); (void)j; ix[k] = pts.size(); pts.push_back(Point(q[k].x, q[k].y)); } }
    const Pts orig = pts; Polygon p(ix, pts); c.op();
    // unused slots of the scheme must not matter: every generator twice, on the same list
    for (int rep = 0; rep < 2; rep++) {
        if (ear) {
            EarTriangulationGenerator g; auto t = g.triangulate(p, pts); c.op();
            if (!tiles(t, pts, ix, -1, "ear", c)) return;
            if (!unchanged(orig, pts, 0)) { c.fail("ear-changes-points", g::str(q)); return; }
        }
        DelaunayTriangulationGenerator g; auto t = g.triangulate(p, pts); c.op();
        if (!tiles(t, pts, ix, -1, "delaunay", c)) return;
        if (!unchanged(orig, pts, 0)) { c.fail("delaunay-changes-points", g::str(q)); return; }
    }
    bool cv = convexQ(q);
    for (int rep = 0; rep < 2; rep++) {
        Pts my = rep ? pts : orig; CenterTriangulationGenerator g; bool threw = false; std::vector<Triangle> t;
        try { t = g.triangulate(p, my); } catch (std::invalid_argument&) { threw = true; }
        c.op();
        if (threw != !cv) { c.fail(threw ? "center-rejected" : "center-accepted", g::str(q)); return; }
        if (!cv) { if (!unchanged(orig, my, 0)) { c.fail("center-changes-points", g::str(q)); return; } continue; }
        if (!unchanged(orig, my, 1)) { c.fail("center-changes-points", g::str(q)); return; }
        double x = 0, y = 0; for (auto& k : q) { x += k.x - q[0].x; y += k.y - q[0].y; } V av{q[0].x + x / q.size(), q[0].y + y / q.size()}; double X = std::fabs(q[0].x) + std::fabs(q[0].y) + 1;
        if (g::dist(av, v(my.back())) > 1e-12 * X) { c.fail("center-point", g::str(v(my.back())) + " instead of " + g::str(av)); return; }
        if (!tiles(t, my, ix, (int)my.size() - 1, "center", c)) return;
    }
    std::vector<int> keep = p.getPoints(); if (keep != ix) { c.fail("polygon-changed", g::str(q)); return; }
    uint64_t h = mode; for (auto& x : q) h = hv(h, x); c.state(h);
}
static const g::Affine PL[] = {{7.3, 0.4, 3.1, -2.7, "rotated"}, {0.5, 1.1, 100, 50, "small"}, {250, 2.0, -4000, 9000, "large"}, {1, 0, 0, 0, ""}, {1, 0.4, 452000.25, 4181000.5, "geographic"}};

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one polygon, given in one way, split by every triangulator; every one is non-trivial";
        bool th = e.thorough(); auto text = [](const g::Poly& q) { return "outline " + g::str(q); };
        auto p3 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(3, 3, 3, 9, true)), p4 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(4, 4, 3, th ? 8 : 7, false)), p5 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(5, 5, 3, th ? 5 : 4, false));
        {   auto get = [=](uint64_t i, int& m) { Dec d(i); m = d.take(4); int dir = d.take(2), st = d.take(9); return variant((*p3)[d.take(p3->size())], st, dir); };
            e.add("3x3 polygons, every start and direction", p3->size() * 72, 1000, [=](uint64_t i, Case& c) { int m; g::Poly q = get(i, m); run(q, m, true, c); }, [=](uint64_t i) { int m; auto q = get(i, m); return text(q) + " list " + num(m); }); }
        {   auto get = [=](uint64_t i, int& m) { Dec d(i); m = 1; int dir = d.take(2); return variant((*p4)[d.take(p4->size())], 0, dir); };
            e.add("4x4 polygons without straight corners", p4->size() * 2, 1000, [=](uint64_t i, Case& c) { int m; g::Poly q = get(i, m); run(q, m, true, c); }, [=](uint64_t i) { int m; return text(get(i, m)); }); }
        {   auto get = [=](uint64_t i, int& m) { Dec d(i); m = 1 + d.take(3); int dir = d.take(2); return variant((*p5)[d.take(p5->size())], 1, dir); };
            e.add("5x5 polygons without straight corners", p5->size() * 6, 1000, [=](uint64_t i, Case& c) { int m; g::Poly q = get(i, m); run(q, m, true, c); }, [=](uint64_t i) { int m; return text(get(i, m)); }); }
        {   auto ps = std::make_shared<std::vector<g::Poly>>(); for (auto& p : *p3) if (!straight(p)) ps->push_back(p); for (auto& p : *p4) if (p.size() <= (th ? 7u : 5u)) ps->push_back(p);
            auto get = [=](uint64_t i) { Dec d(i); auto& a = PL[(int[]){0, 1, 2, 4}[d.take(4)]]; int dir = d.take(2); return g::apply(a, variant((*ps)[d.take(ps->size())], 2, dir)); };
            e.add("lattice polygons, placements", ps->size() * 8, 500, [=](uint64_t i, Case& c) { run(get(i), 1, true, c); }, [=](uint64_t i) { return text(get(i)); }); }
        {   // details much smaller than the sides, at every corner
            auto get = [=](uint64_t i, int& m) { Dec d(i); m = d.take(3); int how = d.take(3), st = DETAIL[d.take(4)], k = d.take(9), dir = d.take(2), pl = d.take(3), rot = d.take(3); auto& p = (*p3)[d.take(p3->size())]; if (k >= (int)p.size() || straight(p)) return g::Poly(); g::Poly q = refineCorner(p, k, st, how); if (q.empty() || straight(q)) return g::Poly(); for (auto& x : q) x = (1.0 / 128) * x; q = variant(q, k + rot, dir); static const g::Affine A[] = {{1, 0, 0, 0, ""}, {0.4, 0.4, 3, -7, ""}, {1, 1.1, -40000, 9000, ""}}; return g::apply(A[pl], q); };
            e.add("3x3 polygons with a small detail at one corner", p3->size() * 3 * 3 * 4 * 9 * 2 * 3 * 3, 5000, [=](uint64_t i, Case& c) { int m; g::Poly q = get(i, m); if (q.empty()) { c.trivial = true; return; } run(q, m, true, c); }, [=](uint64_t i) { int m; auto q = get(i, m); return text(q) + " list " + num(m); }); }
        {   // many corners
            static const int N[] = {30, 62, 64, 66, 100, 128, 130, 200, 256, 260, 400}; int nn = th ? 11 : 9;
            auto tx = [=](uint64_t i) { Dec d(i); int m = d.take(3), dir = d.take(2), st = d.take(2), pl = d.take(2), k = d.take(7), n = N[d.take(nn)]; return std::string(g::BIG[k]) + " of about " + num(n) + " corners, start " + num(st) + ", placement " + num(pl) + ", list " + num(m) + (dir ? ", clockwise" : ""); };
            e.add("outlines of many corners", 3 * 2 * 2 * 2 * 7 * nn, 4, [=](uint64_t i, Case& c) { Dec d(i); int m = d.take(3), dir = d.take(2), st = d.take(2), pl = d.take(2), k = d.take(7), n = N[d.take(nn)]; g::Poly q = g::bigPoly(k, n); q = variant(q, st ? (int)q.size() / 3 : 0, dir); run(pl ? g::apply(PL[0], q) : q, m, true, c); }, tx); }
        {   auto cur = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(curated()); for (int n : {5, 6, 9, 16, 31, 60}) { g::Poly q, s; for (int i = 0; i < n; i++) q.push_back({9 * std::cos(2 * M_PI * i / n), 7 * std::sin(2 * M_PI * i / n)}); cur->push_back({"ellipse", q}); for (int i = 0; i < 2 * n; i++) { double r = i % 2 ? 9 : 4; s.push_back({r * std::cos(M_PI * i / n), r * std::sin(M_PI * i / n)}); } cur->push_back({"star", s}); }
            auto get = [=](uint64_t i, int& m) { Dec d(i); m = d.take(3); int dir = d.take(2), st = d.take(40), a = d.take(4); return g::apply(PL[3 - a], variant((*cur)[d.take(cur->size())].second, st, dir)); };
            e.add("curated domains, every start and direction", cur->size() * 3 * 2 * 40 * 4, 60, [=](uint64_t i, Case& c) { int m; g::Poly q = get(i, m); if (straight(q) && (i / 240) % 4) { c.trivial = true; return; } run(q, m, true, c); }, [=](uint64_t i) { int m; return text(get(i, m)); }); }
    });
}
