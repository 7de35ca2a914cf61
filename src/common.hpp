// Bridges between the oracles and the public API of the library under test.
#pragma once
#include "geom.hpp"
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/models/polygon/Triangle.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>

using g::V;
using mc::Case;
using mc::Dec;
using mc::Explorer;

typedef std::vector<Point> Pts;
inline Pts P(const g::Poly& p) { Pts r; for (auto& v : p) r.push_back(Point(v.x, v.y)); return r; }
inline V v(const Point& p) { return {p.getX(), p.getY()}; }
inline g::Poly vs(const Pts& p) { g::Poly r; for (auto& x : p) r.push_back(v(x)); return r; }
inline uint64_t hv(uint64_t h, V p) { return mc::mix(mc::mix(h, (uint64_t)(int64_t)std::llround(p.x * 1e4)), (uint64_t)(int64_t)std::llround(p.y * 1e4)); }
template <class T> inline std::string num(T x) { std::ostringstream o; o.precision(12); o << x; return o.str(); }

// A mesh read back through the public API.
struct M {
    g::Poly pts;
    std::vector<std::vector<int>> cells;
    g::Poly cell(int i) const { g::Poly r; for (int k : cells[i]) r.push_back(pts[k]); return r; }
};
template <class T> inline M readMesh(Mesh<T>& m) {
    M r; r.pts = vs(m.getPoints().getList());
    for (auto& p : m.getPolygons()) r.cells.push_back(p.getPoints());
    return r;
}
inline uint64_t hashMesh(const M& m) {      // independent of numbering
    std::vector<uint64_t> h;
    for (size_t i = 0; i < m.cells.size(); i++) {
        uint64_t s = 0; for (auto& p : m.cell(i)) s += hv(7, p);
        h.push_back(s);
    }
    std::sort(h.begin(), h.end());
    uint64_t r = 1; for (auto x : h) r = mc::mix(r, x);
    return r;
}
inline bool indicesOk(const M& m, Case& c) {
    for (size_t i = 0; i < m.cells.size(); i++) {
        auto& k = m.cells[i];
        std::set<int> u(k.begin(), k.end());
        if (k.size() < 3 || u.size() != k.size()) { c.fail("cell-malformed", "cell " + num(i) + " has " + num(k.size()) + " corners, " + num(u.size()) + " distinct"); return false; }
        for (int x : k) if (x < 0 || x >= (int)m.pts.size()) { c.fail("cell-index-range", "cell " + num(i) + " refers to point " + num(x) + " of " + num(m.pts.size())); return false; }
    }
    for (auto& p : m.pts) if (!std::isfinite(p.x) || !std::isfinite(p.y)) { c.fail("non-finite-point", g::str(p)); return false; }
    return true;
}

// Every polygon of `m` is a proper counterclockwise polygon and together they cover the domain exactly once:
// directed edges are unique; each is matched by its reverse in another cell, or lies on the domain boundary; everything is
// inside the closed domain; and the areas add up. (Interior matching makes the coverage count constant on the domain,
// and the area fixes that constant to 1.)
inline bool checkTiling(const M& m, const g::Domain& d, double eps, Case& c) {
    if (!indicesOk(m, c)) return false;
    double want = d.area(), sum = 0;
    std::map<std::pair<int, int>, int> dir;
    double L = 1e-300; for (auto& p : d.outer) L = std::max(L, g::dist(p, d.outer[0]));
    for (size_t i = 0; i < m.cells.size(); i++) {
        g::Poly q = m.cell(i);
        double a = g::sarea(q); sum += a;
        if (!(a > 0)) { c.fail("cell-orientation", "cell " + num(i) + " " + g::str(q) + " has signed area " + num(a)); return false; }
        if (g::definitelyCrosses(q, eps)) { c.fail("cell-self-intersects", "cell " + num(i) + " " + g::str(q)); return false; }
        auto& k = m.cells[i];
        for (size_t j = 0; j < k.size(); j++) {
            if (!dir.insert({{k[j], k[(j + 1) % k.size()]}, (int)i}).second) { c.fail("edge-used-twice", "edge " + num(k[j]) + "-" + num(k[(j + 1) % k.size()]) + " in the same direction by two cells"); return false; }
            if (d.where(q[j], eps) < 0) { c.fail("cell-leaves-domain", "cell " + num(i) + " corner " + g::str(q[j]) + " lies outside the domain"); return false; }
        }
    }
    for (auto& e : dir) {
        if (dir.count({e.first.second, e.first.first})) continue;
        V a = m.pts[e.first.first], b = m.pts[e.first.second];
        for (double t : {0.0, 0.25, 0.5, 0.75, 1.0}) if (d.bnd(a + t * (b - a)) > eps) {
            c.fail("gap-or-overlap", "edge " + g::str(a) + "-" + g::str(b) + " of cell " + num(e.second) + " has no neighbour although it is not on the domain boundary"); return false;
        }
    }
    if (!(std::fabs(sum - want) <= eps * L * 4 + 1e-9 * want)) { c.fail("area", "cells cover " + num(sum) + ", the domain measures " + num(want)); return false; }
    return true;
}

// ---- scenarios: one domain with holes and seeds -----------------------------------------------------------------
struct HoleSpec { g::Poly poly; bool circle = false; V c{0, 0}; double r = 0; };
struct Scn {
    g::Poly outer; std::vector<HoleSpec> holes; g::Poly seeds; int grid = 12, prec = 6, scale = 100000; double tol = 1e-5, eps = 0;
    std::string text() const {
        std::string s = "region " + g::str(outer);
        for (auto& h : holes) s += h.circle ? " circular hole " + g::str(h.c) + " r=" + num(h.r) : " hole " + g::str(h.poly);
        if (seeds.size() <= 24) s += " seeds " + g::str(seeds); else s += " " + num(seeds.size()) + " seeds starting " + g::str(g::Poly(seeds.begin(), seeds.begin() + 4));
        if (grid != 12) s += " discretization grade " + num(grid);
        if (tol != 1e-5) s += " tolerance " + num(tol);
        if (prec != 6) s += " precision " + num(prec);
        if (scale != 100000) s += " clipping scale " + num(scale);
        return s;
    }
    static g::Poly circle(V c, double r, int n) { g::Poly p; for (int i = 0; i < n; i++) p.push_back({c.x + r * std::cos(2 * M_PI * i / n), c.y + r * std::sin(2 * M_PI * i / n)}); return p; }
    g::Poly holePoly(const HoleSpec& h) const { return h.circle ? circle(h.c, h.r, grid) : h.poly; }
    g::Domain domain() const { g::Domain d; d.outer = outer; for (auto& h : holes) d.holes.push_back(holePoly(h)); return d; }
};
inline Hole makeHole(const HoleSpec& h) {
    if (h.circle) return CircularHole(Point(h.c.x, h.c.y), h.r);
    Pts p = P(h.poly); return PolygonalHole(p);
}
inline Region buildRegion(const Scn& s, Case& c) {
    Pts p = P(s.outer); Region r(p); c.op();
    for (auto& h : s.holes) { r.addHole(makeHole(h)); c.op(); }
    Pts sd = P(s.seeds); r.addSeedPoints(sd); c.op();
    return r;
}
inline Region buildScn(const Scn& s, Case& c) {      // with the scenario's configuration
    DelynoiConfig* k = DelynoiConfig::instance(); k->setDiscretizationGrade(s.grid); k->setTolerance(s.tol); k->setPrecision(s.prec); k->setScale(s.scale);
    return buildRegion(s, c);
}

// The library treats corners whose triangle has less than its tolerance (1e-5) of doubled area as straight, so details
// below 1e-3 are not resolved; that matters for the domains of the small placement only.
inline double outlineResolution(const g::Poly& outer) {
    double L = 0; for (auto& p : outer) L = std::max(L, g::dist(p, outer[0]));
    return L < 5 ? 1.1e-3 : 1e-4;
}
inline double resolution(const Scn& s) { return s.eps > 0 ? s.eps : outlineResolution(s.outer); }
struct ScnSpace { std::string name; uint64_t n, chunk; std::function<Scn(uint64_t)> get; };

inline std::vector<std::pair<std::string, g::Poly>> curated() {
    std::vector<std::pair<std::string, g::Poly>> r;
    r.push_back({"square", {{0, 0}, {10, 0}, {10, 10}, {0, 10}}});
    r.push_back({"L", {{10, 0}, {20, 0}, {20, 20}, {0, 20}, {0, 10}, {10, 10}}});
    r.push_back({"U", {{0, 0}, {30, 0}, {30, 20}, {20, 20}, {20, 6}, {10, 6}, {10, 20}, {0, 20}}});
    r.push_back({"romboid", {{0, 0}, {10, 0}, {13, 7}, {3, 7}}});
    r.push_back({"triangle", {{0, 0}, {12, 1}, {5, 9}}});
    r.push_back({"comb", {{0, 0}, {14, 0}, {14, 9}, {12, 9}, {12, 3}, {10, 3}, {10, 8}, {8, 8}, {8, 2.5}, {6, 2.5}, {6, 9}, {3.5, 9}, {3.5, 3}, {2, 3}, {2, 7}, {0, 7}}});
    r.push_back({"unicorn", {{2,0},{3,0.5},{3.5,2},{4,4},{6,4},{8.5,4},{9,2},{9.5,0.5},{10,0},{10.5,0.5},{11.2,2.5},{11.5,4.5},{11.8,8.75},{11.8,11.5},{13.5,11},{14.5,11.2},{15,12},{15,13},{15,14.5},{14,16.5},{15,19.5},{15.2,20},{14.5,19.7},{11.8,18.2},{10.5,18.3},{10,18},{8,16},{7.3,15.3},{7,13.8},{6.7,11.5},{3.3,11.3},{1,10.5},{0.4,8.8},{0.3,6.8},{0.4,4},{0.8,2.1},{1.3,0.4}}});
    g::Poly qc{{0, 0}}; for (int i = 0; i <= 8; i++) qc.push_back({10 * std::cos(M_PI / 16 * i), 10 * std::sin(M_PI / 16 * i)});
    r.push_back({"quarter-circle", qc});
    r.push_back({"star", {{10, 0}, {12, 6}, {20, 7}, {14, 11}, {16, 19}, {10, 14}, {4, 19}, {6, 11}, {0, 7}, {8, 6}}});
    r.push_back({"square-with-straight-corners", {{0, 0}, {5, 0}, {10, 0}, {10, 5}, {10, 10}, {5, 10}, {0, 10}, {0, 5}}});
    r.push_back({"thin", {{0, 0}, {20, 0}, {20, 1}, {0, 1}}});
    r.push_back({"spiral", {{0, 0}, {12, 0}, {12, 12}, {3, 12}, {3, 4}, {8, 4}, {8, 8}, {6, 8}, {6, 6}, {5, 6}, {5, 10}, {10, 10}, {10, 2}, {0, 2}}});
    return r;
}
inline g::Poly gridSeeds(const g::Poly& outer, int n, int m) {     // what the constant generator lays over the bounding box
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& p : outer) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    g::Poly s;
    for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) s.push_back({x0 + (n > 1 ? i * (x1 - x0) / (n - 1) : 0), y0 + (m > 1 ? j * (y1 - y0) / (m - 1) : 0)});
    return s;
}
// deterministic irregular point sets ("phase" selects one)
inline g::Poly irregularSeeds(const g::Poly& outer, int n, int phase) {
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& p : outer) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    g::Poly s;
    for (int i = 1; i <= n; i++) {
        double u = std::fmod(i * 0.7548776662466927 + phase * 0.1372, 1.0), w = std::fmod(i * 0.5698402909980532 + phase * 0.3119, 1.0);
        s.push_back({x0 + u * (x1 - x0), y0 + w * (y1 - y0)});
    }
    return s;
}
// Seeds must lie exactly on the boundary or clearly off it: the library identifies points closer than its tolerance, and a
// seed a rounding error away from an edge makes it stop with an exception.
inline bool exactlyOn(const g::Poly& q, V p) {
    for (size_t i = 0; i < q.size(); i++) {
        V a = q[i], b = q[(i + 1) % q.size()];
        __float128 o = ((__float128)b.x - a.x) * ((__float128)p.y - a.y) - ((__float128)b.y - a.y) * ((__float128)p.x - a.x);
        if (o == 0 && g::between(a, b, p)) return true;
    }
    return false;
}
inline g::Poly admissible(const Scn& s, const g::Poly& cand, double gap = 1e-3) {
    g::Domain d = s.domain(); g::Poly r;
    for (auto& p : cand) {
        if (d.bnd(p) < gap) {
            bool on = exactlyOn(d.outer, p); for (auto& h : d.holes) on = on || exactlyOn(h, p);
            if (!on) continue;
        }
        if (d.where(p, gap) < 0) continue;
        r.push_back(p);
    }
    return r;
}

static const g::Affine AFF[] = {{1, 0, 0, 0, "as is"}, {7.3, 0.4, 3.1, -2.7, "rotated"}, {0.13, 1.1, 100, 50, "small, off origin"}, {250, 2.0, -4000, 9000, "large, off origin"}, {10, 0.4, 452000.25, 4181000.5, "geographic"}};

// A polygon of the integer lattice (scaled by 10000) with a detail of the size `step` at corner i: 0 the corner cut off, 1 a second
// corner bulging out next to it, 2 one dented in, 3 one straight on the next side. Empty when the result is not simple.
inline g::Poly refineCorner(const g::Poly& lat, int i, int step, int how) {
    g::Poly q; int n = lat.size();
    for (int k = 0; k < n; k++) {
        V p = 10000 * lat[k]; if (k != i) { q.push_back(p); continue; }
        V nx = lat[(k + 1) % n] - lat[k], pv = lat[(k + n - 1) % n] - lat[k], nr{nx.y, -nx.x};
        if (how == 0) { q.push_back(p + step * pv); q.push_back(p + step * nx); continue; }
        q.push_back(p); q.push_back(p + step * nx + (how == 1 ? step / 2 : how == 2 ? -(step / 2) : 0) * nr);
    }
    return g::simpleExact(q) ? q : g::Poly();
}
static const int DETAIL[] = {2000, 200, 30, 4};
// segments between seeds (and corners) that keep clear of the boundary and of the other seeds
typedef std::vector<std::pair<V, V>> Segs;
inline Segs clearSegs(const Scn& s, const g::Poly& seeds, const g::Poly& corners, size_t most) {
    Segs r; g::Domain d = s.domain(); double L = 0; for (auto& p : s.outer) L = std::max(L, g::dist(p, s.outer[0])); double gap = 1e-2 * L / 14;
    g::Poly pts = seeds; size_t ns = pts.size(); pts.insert(pts.end(), corners.begin(), corners.end());
    for (size_t i = 0; i < ns && r.size() < most; i++) for (size_t j = i + 1; j < pts.size() && r.size() < most; j++) {
        V a = pts[i], b = pts[j]; if (g::dist(a, b) < 4 * gap || d.where(a, gap) <= 0) continue; bool ok = true;
        for (int k = 0; k <= 64 && ok; k++) { V x = a + (k / 64.0) * (b - a); if (j >= ns && g::dist(x, b) < 8 * gap) continue; ok = d.where(x, gap) > 0; }
        if (!ok || (j < ns ? !d.sees(a, b, gap) : !d.sees(a, a + (1 - 8 * gap / g::dist(a, b)) * (b - a), gap / 4))) continue;
        for (size_t k = 0; k < pts.size() && ok; k++) if (k != i && k != j && !(pts[k] == a) && !(pts[k] == b) && g::segDist(pts[k], a, b) < gap) ok = false;
        if (ok) r.push_back({a, b});
    }
    return r;
}

// The spaces of meshing scenarios that the mesh properties share.
inline std::vector<ScnSpace> meshSpaces(bool thorough, bool withClipped = true) {
    std::vector<ScnSpace> out;
    {   // every simple polygon with corners on the 3x3 lattice x every set of at most k seeds from the half-step lattice
        auto polys = std::make_shared<std::vector<g::Poly>>(g::latticePolys(3, 3, 3, 9, true));
        auto sets = std::make_shared<std::vector<std::vector<int>>>();
        int K = thorough ? 3 : 2;
        sets->push_back({});
        for (int a = 0; a < 25; a++) { sets->push_back({a}); }
        for (int a = 0; a < 25; a++) for (int b = a + 1; b < 25; b++) sets->push_back({a, b});
        if (K >= 3) for (int a = 0; a < 25; a++) for (int b = a + 1; b < 25; b++) for (int e = b + 1; e < 25; e++) sets->push_back({a, b, e});
        uint64_t n = polys->size() * sets->size();
        out.push_back({"3x3 lattice polygons x seed sets", n, thorough ? 4000u : 2000u, [=](uint64_t i) {
            Dec d(i); Scn s; auto& st = (*sets)[d.take(sets->size())]; auto& p = (*polys)[d.take(polys->size())];
            for (auto& v : p) s.outer.push_back({10 * v.x, 10 * v.y});
            for (int k : st) s.seeds.push_back({5.0 * (k / 5), 5.0 * (k % 5)});
            return s;
        }});
    }
    {   // triangles and quadrilaterals of the 3x3 lattice x pairs and triples of seeds (quick: up to symmetry)
        auto polys = std::make_shared<std::vector<g::Poly>>(g::uptoSymmetry(g::latticePolys(3, 3, 3, thorough ? 7 : 5, false)));
        auto sets = std::make_shared<std::vector<std::vector<int>>>();
        for (int a = 0; a < 25; a++) for (int b = a + 1; b < 25; b++) { sets->push_back({a, b}); for (int e = b + 1; e < 25; e++) sets->push_back({a, b, e}); }
        out.push_back({"small lattice polygons x seed pairs and triples", polys->size() * sets->size(), 1000, [=](uint64_t i) {
            Dec d(i); Scn s; auto& st = (*sets)[d.take(sets->size())]; auto& p = (*polys)[d.take(polys->size())];
            for (auto& v : p) s.outer.push_back(g::apply(AFF[1], v));
            g::Poly cand; for (int k : st) cand.push_back(g::apply(AFF[1], V{0.5 * (k / 5), 0.5 * (k % 5)}));
            s.seeds = admissible(s, cand);
            return s;
        }});
    }
    {   // polygons of the 4x4 lattice (up to symmetry) with a regular grid of seeds, under affine maps
        auto polys = std::make_shared<std::vector<g::Poly>>(g::uptoSymmetry(g::latticePolys(4, 4, 3, thorough ? 8 : 6, false)));
        out.push_back({"4x4 lattice polygons x placement", polys->size() * 5, 100, [=](uint64_t i) {
            Dec d(i); Scn s; int a = d.take(5); auto& p = (*polys)[d.take(polys->size())];
            g::Poly base = p, cand; for (int x = 0; x <= 12; x += 2) for (int y = 0; y <= 12; y += 3) cand.push_back({x / 4.0, y / 4.0});
            s.outer = g::apply(AFF[a], base); s.seeds = admissible(s, g::apply(AFF[a], cand), 1e-3 * AFF[a].sx);
            return s;
        }});
    }
    {   // curated domains x seed grids x placement
        auto cur = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(curated());
        int N = thorough ? 20 : 9;
        out.push_back({"curated domains x seed grids x placement", cur->size() * N * N * 3, 40, [=](uint64_t i) {
            Dec d(i); int n = d.take(N) + 1, m = d.take(N) + 1, a = d.take(3); auto& p = (*cur)[d.take(cur->size())].second;
            Scn s; s.outer = g::apply(AFF[a * 2], p); s.seeds = admissible(s, g::apply(AFF[a * 2], gridSeeds(p, n + 1, m + 1)), 1e-3 * AFF[a * 2].sx);
            return s;
        }});
        int PH = thorough ? 120 : 12;
        out.push_back({"curated domains x irregular seeds", cur->size() * 6 * PH, 24, [=](uint64_t i) {
            Dec d(i); static const int cnt[] = {1, 3, 8, 20, 60, 150}; int n = cnt[d.take(6)], ph = d.take(PH); auto& p = (*cur)[d.take(cur->size())].second;
            Scn s; s.outer = p; s.seeds = admissible(s, irregularSeeds(p, n, ph)); return s;
        }});
    }
    {   // interior holes: every placement of one or two holes on a lattice inside the square / L domain
        struct HC { g::Poly outer; std::vector<HoleSpec> h; };
        auto cs = std::make_shared<std::vector<HC>>();
        std::vector<std::function<HoleSpec(V)>> shape;
        auto poly = [](g::Poly base) { return [=](V o) { HoleSpec h; for (auto& v : base) h.poly.push_back({o.x + v.x, o.y + v.y}); return h; }; };
        shape.push_back(poly({{-1.5, -1.5}, {1.5, -1.5}, {1.5, 1.5}, {-1.5, 1.5}}));
        shape.push_back(poly({{-2, -1}, {2, -1.5}, {0.5, 2}}));
        shape.push_back(poly({{-2, -2}, {2, -2}, {2, 2}, {0.2, 2}, {0.2, 0}, {-2, 0}}));          // L-shaped hole
        shape.push_back(poly({{-2, -2}, {2, -2}, {2, 2}, {1.4, 2}, {1.4, -1.4}, {-1.4, -1.4}, {-1.4, 2}, {-2, 2}}));   // U: centroid outside the hole
        shape.push_back([](V o) { HoleSpec h; h.circle = true; h.c = o; h.r = 1.8; return h; });
        g::Poly sq{{0, 0}, {20, 0}, {20, 20}, {0, 20}}, L{{10, 0}, {20, 0}, {20, 20}, {0, 20}, {0, 10}, {10, 10}};
        for (auto& o : {sq, L}) for (auto& s1 : shape) for (int x = 3; x <= 17; x += 7) for (int y = 3; y <= 17; y += 7) {
            Scn t; t.outer = o; HoleSpec h = s1({(double)x, (double)y}); 
            auto inner = [&](const HoleSpec& q) { g::Poly hp = t.holePoly(q); for (auto& v : hp) if (g::where(o, v, 0.5) <= 0) return false; return true; };
            if (!inner(h)) continue;
            cs->push_back({o, {h}});
            for (size_t k = 0; k < shape.size(); k++) for (int x2 = 3; x2 <= 17; x2 += 7) for (int y2 = 3; y2 <= 17; y2 += 7) {
                if (x2 * 100 + y2 <= x * 100 + y) continue;
                                HoleSpec h2 = shape[k]({(double)x2, (double)y2});
                if (!inner(h2)) continue;
                cs->push_back({o, {h, h2}});
            }
        }
        out.push_back({"interior holes x seeds", cs->size() * 4, 60, [=](uint64_t i) {
            Dec d(i); int k = d.take(4); auto& c = (*cs)[d.take(cs->size())];
            Scn s; s.outer = c.outer; s.holes = c.h;
            g::Poly cand = k == 0 ? g::Poly() : k == 1 ? gridSeeds(c.outer, 4, 4) : k == 2 ? gridSeeds(c.outer, 9, 9) : irregularSeeds(c.outer, 40, 3);
            s.seeds = admissible(s, cand); return s;
        }});
        if (withClipped) {   // a hole crossing the boundary of the domain, at every lattice position around a square
            auto cl = std::make_shared<std::vector<HC>>();
            for (auto& o : {sq, g::Poly{{0, 0}, {20, 0}, {26, 14}, {6, 14}}}) for (size_t k : {0, 1, 4}) for (int x = -1; x <= 27; x++) for (int y = -1; y <= 21; y++) {
                HoleSpec h = shape[k](V{x + 0.3, y + 0.2}); Scn t; g::Poly hp = t.holePoly(h);
                int in = 0, outn = 0; double close = 1e9; bool split = false;
                for (auto& v : hp) { int w = g::where(o, v, 1e-9); in += w > 0; outn += w < 0; close = std::min(close, g::bndDist(o, v)); }
                for (auto& v : o) { close = std::min(close, g::bndDist(hp, v)); }
                if (!in || !outn || close < 0.05 || split) continue;
                // no pocket: crossing exactly twice
                int cr = 0; for (size_t a = 0; a < hp.size(); a++) for (size_t b = 0; b < o.size(); b++) cr += g::properCross(hp[a], hp[(a + 1) % hp.size()], o[b], o[(b + 1) % o.size()], 0);
                if (cr != 2) continue;
                cl->push_back({o, {h}});
            }
            out.push_back({"hole crossing the boundary x seeds", cl->size() * 3, 60, [=](uint64_t i) {
                Dec d(i); int k = d.take(3); auto& c = (*cl)[d.take(cl->size())];
                Scn s; s.outer = c.outer; s.holes = c.h;
                g::Poly cand = k == 0 ? g::Poly() : k == 1 ? gridSeeds(c.outer, 5, 5) : irregularSeeds(c.outer, 30, 5);
                s.seeds = admissible(s, cand); return s;
            }});
        }
    }
    {   // three and more interior holes of different corner counts
        auto cs = std::make_shared<std::vector<std::pair<int, int>>>();
        for (int set = 0; set < 512; set++) { int k = __builtin_popcount(set); if (k >= 3 && (thorough || k == 3 || k == 4 || k == 9)) for (int ph = 0; ph < 5; ph++) cs->push_back({set, ph}); }
        out.push_back({"three and more interior holes x seeds", cs->size() * 2, 60, [=](uint64_t i) {
            Dec d(i); int k = d.take(2); auto c = (*cs)[d.take(cs->size())]; Scn s; s.outer = {{0, 0}, {21, 0}, {21, 21}, {0, 21}};
            static const std::vector<g::Poly> sh{{{-1.5, -1.5}, {1.5, -1.5}, {1.5, 1.5}, {-1.5, 1.5}}, {{-2, -1}, {2, -1.5}, {0.5, 2}}, {{-2, -2}, {2, -2}, {2, 2}, {0.2, 2}, {0.2, 0}, {-2, 0}}, {{-1, -2}, {1, -2}, {2, 0}, {1, 2}, {-1.5, 1}}};
            int j = c.second;
            for (int q = 0; q < 9; q++) if (c.first >> q & 1) { HoleSpec h; V o{3.5 + 7 * (q / 3), 3.5 + 7 * (q % 3)}; int w = (j++ * 2 + q) % 5; if (w == 4) { h.circle = true; h.c = o; h.r = 1.8; } else for (auto& v : sh[w]) h.poly.push_back(o + v); s.holes.push_back(h); }
            s.seeds = admissible(s, k ? gridSeeds(s.outer, 7, 7) : irregularSeeds(s.outer, 25, c.second)); return s;
        }});
    }
    {   // (more corners than this on small circles are below the resolution: their triangles have less area than the tolerance)
        // holes that are circles of any discretization grade: inside (one, two, off center) and crossing the boundary
        static const int grades[] = {3, 4, 5, 7, 8, 11, 16, 25, 30, 48, 60, 100};
        int kinds = withClipped ? 6 : 4;
        out.push_back({"circular holes of other grades x seeds", 12 * (uint64_t)kinds * 3 * 3, 20, [=](uint64_t i) {
            Dec d(i); int k = d.take(3); static const double R[] = {0.6, 1.8, 3.1}; double r = R[d.take(3)]; int w = d.take(kinds); Scn s; s.grid = grades[d.take(12)]; if (s.grid > 50 && r < 1) r = 2.4; s.outer = w % 2 ? g::Poly{{0, 0}, {20, 0}, {20, 20}, {0, 20}} : g::Poly{{0, 0}, {20, 0}, {26, 14}, {6, 14}};
            auto add = [&](V o, double q) { HoleSpec h; h.circle = true; h.c = o; h.r = q; s.holes.push_back(h); };
            if (w < 2) add({11, 7}, r); else if (w < 4) { add({8.3, 7.1}, r); add({15.7, 6.2}, 1.2); } else if (w == 4) add({6.37, -0.21 * r}, r); else add({20.17, 9.23}, r);
            s.seeds = admissible(s, k == 0 ? g::Poly() : k == 1 ? gridSeeds(s.outer, 6, 6) : irregularSeeds(s.outer, 30, 5)); return s;
        }});
    }
    {   // shallow corners: a quadrilateral whose four sides each have one corner more, a little off the straight line
        static const double H[] = {0, 0.002, 0.02, 0.3, -0.002, -0.02, -0.3};
        int nh = 7;
        out.push_back({"shallow corners x seeds", (uint64_t)nh * nh * nh * nh * 3, 100, [=](uint64_t i) {
            Dec d(i); int k = d.take(3); Scn s; static const V q[] = {{0, 0}, {20, 1}, {21, 17}, {-1, 15}}; static const double at[] = {0.5, 0.3, 0.62, 0.1};
            for (int j = 0; j < 4; j++) { V a = q[j], b = q[(j + 1) % 4]; s.outer.push_back(a); double h = H[d.take(nh)]; V n = (1 / g::dist(a, b)) * V{(b - a).y, -(b - a).x}; s.outer.push_back(a + at[j] * (b - a) + h * n); }
            s.seeds = admissible(s, k == 0 ? g::Poly() : k == 1 ? gridSeeds({q[0], q[1], q[2], q[3]}, 5, 4) : irregularSeeds(s.outer, 12, 5)); return s;
        }});
    }
    {   // corners on straight borders very close to each other or close to a real corner, of the outline or of a hole
        // (a real corner is resolved when its edges are longer than about sqrt(tolerance))
        static const double DL[] = {0.002, 0.004, 0.02, 0.1}; static const std::vector<g::Poly> sh{{{-2, -2}, {2, -2}, {2, 2}, {-2, 2}}, {{-2, -1}, {2, -1.5}, {0.5, 2}}, {{-2, -2}, {2, -2}, {2, 2}, {0.2, 2}, {0.2, 0}, {-2, 0}}};
        out.push_back({"corners close to each other x seeds", 3 * 2 * 4 * 6 * 3 * 2 * 3, 60, [=](uint64_t i) {
            Dec d(i); int k = d.take(3), rev = d.take(2), at = d.take(6), kind = d.take(3); double dl = DL[d.take(4)]; int onHole = d.take(2); auto& b = sh[d.take(3)]; Scn s; g::Poly q; double f = onHole ? 1 : 3;
            if (kind == 2) dl = std::max(dl, 0.02); at %= b.size(); int first = 0;
            for (int j = 0; j < (int)b.size(); j++) { V x = f * b[j], y = f * b[(j + 1) % b.size()]; V u = (1 / g::dist(x, y)) * (y - x); q.push_back(x); if (j != at) continue;
                if (kind < 2) { first = q.size(); q.push_back(x + (0.37 * g::dist(x, y)) * u); q.push_back(x + (0.37 * g::dist(x, y) + dl) * u); if (kind == 1) q.push_back(x + (0.37 * g::dist(x, y) + 3 * dl) * u); } else { first = q.size() - 1; q.push_back(x + dl * u); } }
            std::rotate(q.begin(), q.begin() + first, q.end()); if (rev) { std::reverse(q.begin(), q.end()); std::rotate(q.begin(), q.end() - 2, q.end()); }
            if (onHole) { s.outer = {{0, 0}, {20, 0}, {26, 14}, {6, 14}}; HoleSpec h; for (auto& x : q) h.poly.push_back(x + V{12.3, 7.1}); s.holes.push_back(h); } else s.outer = q;
            s.seeds = admissible(s, k == 0 ? g::Poly() : k == 1 ? gridSeeds(s.outer, 5, 4) : irregularSeeds(s.outer, 12, 5)); return s;
        }});
    }
    {   // sites with many neighbours: seeds in the middle of a round domain or of a ring of seeds
        static const int NN[] = {8, 20, 48, 63, 64, 65, 66, 100, 127, 128, 129, 200}; int nn = thorough ? 12 : 12;
        out.push_back({"sites with many neighbours", (uint64_t)nn * 6, 3, [=](uint64_t i) {
            Dec d(i); int k = d.take(6), n = NN[d.take(nn)]; Scn s; g::Poly ring; V o{2.5, -1.25}; for (int j = 0; j < n; j++) ring.push_back(o + V{10 * std::cos(2 * M_PI * j / n), 10 * std::sin(2 * M_PI * j / n)});
            g::Poly cand; if (k < 3) s.outer = ring; else { s.outer = {{-12, -16}, {17, -16}, {17, 13}, {-12, 13}}; if (k < 5) cand = ring; else { HoleSpec h; h.circle = true; h.c = o; h.r = 9; s.grid = n; s.holes.push_back(h); } }
            if (k < 5) cand.push_back(o); if (k == 1 || k == 4) cand.push_back(o + V{0.3, 0.1}); if (k == 2) { cand.push_back(o + V{4, 0}); cand.push_back(o + V{-4, 0.5}); }
            s.seeds = admissible(s, cand); return s;
        }});
    }
    {   // outlines of many corners
        static const int N[] = {33, 64, 66, 100, 130, 200, 258, 400}; int nn = thorough ? 8 : 6;
        out.push_back({"outlines of many corners x seeds", 4 * 2 * 7 * (uint64_t)nn, 4, [=](uint64_t i) {
            Dec d(i); int k = d.take(4), rev = d.take(2), kind = d.take(7), n = N[d.take(nn)]; Scn s; s.outer = g::bigPoly(kind, n); if (rev) { std::reverse(s.outer.begin(), s.outer.end()); std::rotate(s.outer.begin(), s.outer.begin() + s.outer.size() / 3, s.outer.end()); }
            s.seeds = admissible(s, k == 0 ? g::Poly() : k == 1 ? irregularSeeds(s.outer, 7, kind) : k == 2 ? gridSeeds(s.outer, 12, 9) : irregularSeeds(s.outer, 250, n)); return s;
        }});
    }
    {   // many holes
        static const int N[] = {10, 12, 16, 17, 25, 33, 49, 64}; int nn = thorough ? 8 : 6;
        static const std::vector<g::Poly> sh{{{-1.5, -1.5}, {1.5, -1.5}, {1.5, 1.5}, {-1.5, 1.5}}, {{-2, -1}, {2, -1.5}, {0.5, 2}}, {{-2, -2}, {2, -2}, {2, 2}, {0.2, 2}, {0.2, 0}, {-2, 0}}, {{-1, -2}, {1, -2}, {2, 0}, {1, 2}, {-1.5, 1}}};
        out.push_back({"many holes x seeds", 4 * 3 * 3 * (uint64_t)nn, 3, [=](uint64_t i) {
            Dec d(i); int k = d.take(4), w = d.take(3), ord = d.take(3), n = N[d.take(nn)], m = std::ceil(std::sqrt((double)n)); Scn s; s.outer = {{0, 0}, {7.0 * m, 0}, {7.0 * m, 7.0 * m}, {0, 7.0 * m}};
            for (int j = 0; j < n; j++) { int q = ord == 0 ? j : ord == 1 ? n - 1 - j : (j * 7 + 3) % n; if (ord == 2 && n % 7 == 0) q = n - 1 - j; HoleSpec h; V o{3.5 + 7 * (q / m), 3.5 + 7 * (q % m)}; int t = w == 0 ? 0 : w == 1 ? 4 : q % 5; if (t == 4) { h.circle = true; h.c = o; h.r = 1.8; } else for (auto& v : sh[t]) h.poly.push_back(o + v); s.holes.push_back(h); }
            s.seeds = admissible(s, k == 0 ? g::Poly() : k == 1 ? irregularSeeds(s.outer, 9, n) : k == 2 ? gridSeeds(s.outer, 2 * m + 1, 2 * m) : irregularSeeds(s.outer, 200, n)); return s;
        }});
    }
    {   // seeds close to the boundary and to each other
        auto cur = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(curated());
        static const double G[] = {0.002, 0.01, 0.05, 0.2};
        int N = thorough ? 6 : 3;
        out.push_back({"seeds close to the boundary and to each other", cur->size() * 4 * N * 4, 12, [=](uint64_t i) {
            Dec d(i); int mode = d.take(4), n = 1 + d.take(N); double gap = G[d.take(4)]; Scn s; s.outer = (*cur)[d.take(cur->size())].second; g::Poly cand; int m = s.outer.size();
            for (int j = 0; j < m; j++) { V a = s.outer[j], b = s.outer[(j + 1) % m]; V nr = (1 / g::dist(a, b)) * V{-(b - a).y, (b - a).x};
                for (int k = 0; k <= n; k++) { if (mode & 1 && (j + k) % 2) continue; double t = (k + 0.37) / (n + 1); cand.push_back(a + t * (b - a) + gap * nr); if (mode & 2) cand.push_back(a + t * (b - a) + 2.5 * gap * nr + 0.3 * gap * (b - a)); } }
            s.seeds = admissible(s, cand); g::Poly far; for (auto& p : s.seeds) { bool ok = true; for (auto& q : far) ok = ok && g::dist(p, q) > 1e-3; if (ok) far.push_back(p); } s.seeds = far; return s;
        }});
    }
    {   // settings that have no say in a mesh: output precision, clipping scale without clipping, grade without circles
        auto cur = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(curated());
        out.push_back({"curated domains under other settings", cur->size() * 4 * 3 * 3 * 3, 20, [=](uint64_t i) {
            Dec d(i); static const int PR[] = {1, 2, 3, 12}, SC[] = {10, 1000, 10000000}, GR[] = {3, 12, 50}; Scn s; s.prec = PR[d.take(4)]; s.scale = SC[d.take(3)]; s.grid = GR[d.take(3)]; int k = d.take(3); auto& p = (*cur)[d.take(cur->size())].second;
            g::Affine a{1.37, 0.21, 0.123456789, -2.3456789, ""}; s.outer = g::apply(a, p); s.seeds = admissible(s, g::apply(a, k == 0 ? gridSeeds(p, 4, 5) : irregularSeeds(p, k == 1 ? 12 : 60, 2 + k))); return s;
        }});
    }
    {   // tiny domains with a finer tolerance
        auto cur = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(curated());
        out.push_back({"tiny domains with a finer tolerance", cur->size() * 4 * 4 * 2, 20, [=](uint64_t i) {
            Dec d(i); int n = 1 + 2 * d.take(4), k = d.take(4), sz = d.take(2); auto& p = (*cur)[d.take(cur->size())].second; double f = sz ? 1e-2 : 1e-3; g::Affine a{f, 0.4 * sz, 0.7 * sz, -0.3 * sz, ""};
            Scn s; s.tol = 1e-5 * f * f; s.eps = 1e-4 * f; s.outer = g::apply(a, p); s.seeds = admissible(s, g::apply(a, k < 3 ? gridSeeds(p, n + 1, n + k) : irregularSeeds(p, 5 * n, n)), 1e-3 * f); return s;
        }});
    }
    {   // many triangles: block boundaries of the triangulator's memory pools, deep divide and conquer
        static const int big[] = {20, 34, 48, 100};
        int nb = thorough ? 4 : 3;
        out.push_back({"large grids", (uint64_t)nb * 3, 1, [=](uint64_t i) {
            Dec d(i); int n = big[d.take(nb)], k = d.take(3); Scn s; s.outer = curated()[k == 0 ? 0 : k == 1 ? 1 : 6].second;
            s.seeds = admissible(s, k == 2 ? irregularSeeds(s.outer, n * n, 1) : gridSeeds(s.outer, n, n)); return s;
        }});
    }
    return out;
}

// Meshes with more points than a 16 bit index can number.
inline ScnSpace hugeSpace() {
    return {"more than 65536 points", 3, 1, [](uint64_t i) {
        Scn s; s.outer = {{0, 0}, {1000, 0}, {1000, 1000}, {0, 1000}}; g::Poly cand;
        if (i == 0) cand = irregularSeeds(s.outer, 36000, 1);
        else {
            cand = gridSeeds({{2, 3}, {998, 3}, {998, 997}, {2, 997}}, 260, 260);
            if (i == 2) {       // neighbours are 65536 places apart in the list
                std::vector<char> used(cand.size(), 0); g::Poly first, last, rest;
                for (int k = 0; k < 2000; k++) { int a = 2 * (k % 130) + 260 * (2 * (k / 130)), b = a + 261; used[a] = used[b] = 1; first.push_back(cand[a]); last.push_back(cand[b]); }
                for (size_t k = 0; k < cand.size(); k++) if (!used[k]) rest.push_back(cand[k]);
                cand = first; cand.insert(cand.end(), rest.begin(), rest.begin() + (65536 - 2000)); cand.insert(cand.end(), last.begin(), last.end()); cand.insert(cand.end(), rest.begin() + (65536 - 2000), rest.end());
            }
        }
        s.seeds = admissible(s, cand); return s;
    }};
}
// ---- complete observable content of a mesh -----------------------------------------------------------------------
inline std::string hexd(double d) { char b[40]; snprintf(b, 40, "%a", d); return b; }
template <class T> inline std::string dumpMesh(Mesh<T>& m) {
    std::string s = "points"; 
    for (auto& p : m.getPoints().getList()) s += " " + hexd(p.getX()) + "," + hexd(p.getY()) + (p.isInBoundary() ? "b" : "");
    s += "\nelements";
    for (auto& p : m.getPolygons()) { s += " ["; for (int k : p.getPoints()) s += num(k) + " "; s += "]"; }
    std::vector<std::string> e;
    for (auto& x : m.getSegments()->getMap()) {
        int a = x.first.getFirst(), b = x.first.getSecond(), n = x.second.getFirst(), k = x.second.getSecond();
        if (a > b) std::swap(a, b);
        if (n < k) std::swap(n, k);
        e.push_back(num(a) + "-" + num(b) + ":" + num(n) + "," + num(k));
    }
    std::sort(e.begin(), e.end()); s += "\nedges"; for (auto& x : e) s += " " + x;
    s += "\npoint map";
    for (auto& x : m.getPointMap()->getMap()) {
        auto n = x.second.getNeighbours(); std::set<int> u(n.begin(), n.end());
        s += " " + hexd(x.first.getX()) + "," + hexd(x.first.getY()) + ":"; for (int k : u) s += num(k) + ",";
    }
    return s + "\n";
}
inline std::string firstDiff(const std::string& a, const std::string& b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 40 ? i - 40 : 0;
    return "'..." + a.substr(f, 100) + "' against '..." + b.substr(f, 100) + "'";
}
inline std::string dumpRegion(Region& r) {
    std::string s = "outline"; for (auto p : r.getRegionPoints()) s += " " + hexd(p.getX()) + "," + hexd(p.getY());
    s += " seeds"; for (auto p : r.getSeedPoints()) s += " " + hexd(p.getX()) + "," + hexd(p.getY());
    s += " holes"; for (auto h : r.getHoles()) { s += " c" + hexd(h.getCenter().getX()) + "," + hexd(h.getCenter().getY()); for (auto p : h.getPoints()) s += " " + hexd(p.getX()) + "," + hexd(p.getY()); }
    std::vector<IndexSegment> sg; r.getSegments(sg); s += " segments"; for (auto& x : sg) s += " " + num(x.getFirst()) + "-" + num(x.getSecond());
    return s;
}
// runs f in a fresh child process and returns the string it computes
inline std::string inFreshProcess(const std::function<std::string()>& f) {
    int fd[2]; if (pipe(fd)) abort();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]); std::string s;
        try { s = "ok " + f(); } catch (std::exception& e) { s = std::string("exception ") + e.what(); } catch (...) { s = "exception"; }
        size_t o = 0; while (o < s.size()) { ssize_t k = write(fd[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
        _exit(0);
    }
    close(fd[1]); std::string s; char b[65536]; ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
    close(fd[0]); int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) s = "the process died";
    return s;
}

// Adjacency records against the elements.
template <class T> inline bool checkAdjacency(Mesh<T>& m, Case& c, const std::string& what, bool allPairs) {
    M r = readMesh(m);
    if (!indicesOk(r, c)) return false;
    double tol = DelynoiConfig::instance()->getTolerance();
    std::vector<int> ord(r.pts.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return r.pts[a] < r.pts[b]; });
    for (size_t i = 0; i < ord.size(); i++) for (size_t j = i + 1; j < ord.size() && r.pts[ord[j]].x - r.pts[ord[i]].x < tol; j++)
        if (std::fabs(r.pts[ord[j]].y - r.pts[ord[i]].y) < tol) { c.fail("equal-points", what + ": points " + num(ord[i]) + " and " + num(ord[j]) + " coincide at " + g::str(r.pts[ord[i]])); return false; }
    std::map<std::pair<int, int>, std::vector<int>> ed; std::map<int, std::set<int>> pm;
    for (size_t i = 0; i < r.cells.size(); i++) {
        auto& k = r.cells[i];
        for (size_t j = 0; j < k.size(); j++) {
            int a = k[j], b = k[(j + 1) % k.size()];
            ed[{std::min(a, b), std::max(a, b)}].push_back(i); pm[a].insert(i);
        }
    }
    SegmentMap* sm = m.getSegments();
    if (sm->size() != (int)ed.size()) {
        std::string ex; for (auto& x : sm->getMap()) if (!ed.count({std::min(x.first.getFirst(), x.first.getSecond()), std::max(x.first.getFirst(), x.first.getSecond())})) { ex = ", e.g. " + x.first.getString() + " is no edge"; break; }
        c.fail("segment-records", what + ": " + num(sm->size()) + " segments recorded, the elements have " + num(ed.size()) + " edges" + ex); return false;
    }
    auto same = [&](const NeighboursBySegment& n, const std::vector<int>& w) {
        std::vector<int> x{n.getFirst(), n.getSecond()}, y = w; if (y.size() == 1) y.push_back(-1);
        std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y;
    };
    int before = sm->size();
    for (auto& e : ed) for (int dir = 0; dir < 2; dir++) {
        IndexSegment s(dir ? e.first.second : e.first.first, dir ? e.first.first : e.first.second);
        if (!sm->containsSegment(s)) { c.fail("segment-records", what + ": edge " + s.getString() + " is not recorded"); return false; }
        NeighboursBySegment n = m.getNeighbours(s); c.op(2);
        if (!same(n, e.second) || !same(sm->get(s), e.second)) { std::string w; for (int x : e.second) w += " " + num(x); c.fail("segment-neighbours", what + ": edge " + s.getString() + " lists " + n.getString() + ", it belongs to" + w); return false; }
    }
    int np = r.pts.size();
    if (allPairs) for (int a = -1; a <= np; a++) for (int b = a + 1; b <= np; b++) {
        if (ed.count({a, b})) continue;
        for (int dir = 0; dir < 2; dir++) {
            IndexSegment s(dir ? b : a, dir ? a : b);
            NeighboursBySegment n = m.getNeighbours(s); c.op();
            if (n.getFirst() != -1 || n.getSecond() != -1) { c.fail("absent-segment", what + ": " + s.getString() + " is no edge but lists " + n.getString()); return false; }
            if (sm->containsSegment(s)) { c.fail("absent-segment", what + ": " + s.getString() + " is no edge but is recorded"); return false; }
        }
    }
    if (sm->size() != before) { c.fail("lookup-changes-mesh", what + ": looking segments up changed their number from " + num(before) + " to " + num(sm->size())); return false; }
    PointMap* pmap = m.getPointMap();
    if (pmap->size() != (int)pm.size()) { c.fail("point-records", what + ": " + num(pmap->size()) + " points recorded, the elements have " + num(pm.size()) + " corners"); return false; }
    for (auto& e : pm) {
        auto it = pmap->getMap().find(m.getPoint(e.first));
        if (it == pmap->getMap().end()) { c.fail("point-records", what + ": corner " + num(e.first) + " is not recorded"); return false; }
        auto n = it->second.getNeighbours(); std::set<int> u(n.begin(), n.end());
        auto g2 = pmap->get(m.getPoint(e.first)).getNeighbours(); c.op();
        if (u != e.second || n != g2) { std::string w, x; for (int k : e.second) w += " " + num(k); for (int k : u) x += " " + num(k); c.fail("point-neighbours", what + ": corner " + num(e.first) + " lists" + x + ", it belongs to" + w); return false; }
    }
    return true;
}

// incircle in quadruple precision, normalised: > 0 when d is inside the circle through the counterclockwise a, b, c
inline double incircleQ(V a, V b, V c, V d) {
    typedef __float128 Q;
    Q ax = (Q)a.x - d.x, ay = (Q)a.y - d.y, bx = (Q)b.x - d.x, by = (Q)b.y - d.y, cx = (Q)c.x - d.x, cy = (Q)c.y - d.y;
    Q A = ax * ax + ay * ay, B = bx * bx + by * by, C = cx * cx + cy * cy;
    Q r = A * (bx * cy - by * cx) - B * (ax * cy - ay * cx) + C * (ax * by - ay * bx);
    Q n = std::max(std::max((double)A, (double)B), (double)C); n = n * n;
    return n == 0 ? 0 : (double)(r / n);
}
// corners of the domain as the region reports them, plus those of its holes
inline g::Poly corners(Region& r) { return vs(r.getRegionPoints()); }
// the vertices of `m` (those used by an element) must include every point of `want`; returns the remaining ones
inline bool checkVertices(const M& m, const g::Poly& want, g::Poly& extra, Case& c, const std::string& what) {
    std::set<int> used; for (auto& k : m.cells) used.insert(k.begin(), k.end());
    std::vector<V> u; for (int k : used) u.push_back(m.pts[k]);
    std::sort(u.begin(), u.end());
    double tol = DelynoiConfig::instance()->getTolerance();
    std::vector<char> hit(u.size(), 0);
    for (auto& p : want) {
        bool ok = false;
        for (auto it = std::lower_bound(u.begin(), u.end(), V{p.x - tol, -1e300}); it != u.end() && it->x <= p.x + tol; ++it)
            if (std::fabs(it->y - p.y) <= tol) { ok = true; hit[it - u.begin()] = 1; }
        if (!ok) { c.fail("input-point-missing", what + ": " + g::str(p) + " is no vertex of the triangulation"); return false; }
    }
    for (size_t i = 0; i < u.size(); i++) if (!hit[i]) extra.push_back(u[i]);
    return true;
}
// locally Delaunay across every edge shared by two triangles, except those for which skip() holds
inline bool checkLocalDelaunay(const M& m, Case& c, const std::string& what, const std::function<bool(V, V)>& skip, bool exactInts = false) {
    std::map<std::pair<int, int>, std::pair<int, int>> dir;
    for (size_t i = 0; i < m.cells.size(); i++) for (int j = 0; j < 3; j++) dir[{m.cells[i][j], m.cells[i][(j + 1) % 3]}] = {(int)i, m.cells[i][(j + 2) % 3]};
    for (auto& e : dir) {
        auto o = dir.find({e.first.second, e.first.first});
        if (o == dir.end() || e.first.first > e.first.second) continue;
        V a = m.pts[e.first.first], b = m.pts[e.first.second], p = m.pts[e.second.second], q = m.pts[o->second.second];
        bool bad = exactInts ? g::incircleExact(a, b, p, q) > 0 : incircleQ(a, b, p, q) > 1e-20;
        if (bad && !skip(a, b)) { c.fail("not-delaunay", what + ": " + g::str(q) + " is inside the circumcircle of " + g::str(a) + g::str(b) + g::str(p)); return false; }
    }
    return true;
}
