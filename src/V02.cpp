// V02: one Voronoi cell per site, consisting of the points nearest to it.
#include "common.hpp"

static void check(const Scn& s, Case& c) {
    Region r = buildScn(s, c);
    Pts seeds = r.getSeedPoints();
    TriangleVoronoiGenerator gen(seeds, r); c.op();
    M m = readMesh(gen.getMesh()), t = readMesh(gen.getTriangulation()); c.op(2);
    c.trivial = m.cells.size() < 2; c.state(mc::mix(hashMesh(m), hashMesh(t)));
    if (!indicesOk(m, c) || !indicesOk(t, c)) return;
    g::Poly want = corners(r), extra; for (auto& p : vs(seeds)) want.push_back(p);
    if (!checkVertices(t, want, extra, c, "triangulation")) return;
    std::set<int> used; for (auto& k : t.cells) used.insert(k.begin(), k.end());
    g::Poly site; for (int k : used) site.push_back(t.pts[k]);
    if (site.size() != m.cells.size()) { c.fail("cell-count", num(m.cells.size()) + " cells for " + num(site.size()) + " sites"); return; }
    double eps = resolution(s);
    g::Domain d = s.domain();
    std::vector<int> order(site.size()); for (size_t i = 0; i < order.size(); i++) order[i] = i;
    std::sort(order.begin(), order.end(), [&](int a, int b) { return site[a] < site[b]; });
    std::vector<V> sx; for (int i : order) sx.push_back(site[i]);
    // match cells with sites
    std::vector<int> own(m.cells.size(), -1), by(site.size(), -1);
    for (size_t i = 0; i < m.cells.size(); i++) {
        g::Poly q = m.cell(i); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
        for (auto& p : q) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
        int best = -1; double bd = 1e300; int strict = 0;
        for (auto it = std::lower_bound(sx.begin(), sx.end(), V{x0 - eps, -1e300}); it != sx.end() && it->x <= x1 + eps; ++it) {
            if (it->y < y0 - eps || it->y > y1 + eps) continue;
            double b = g::bndDist(q, *it); bool in = g::insideRaw(q, *it);
            double k = in ? -b : b;
            if (k > eps) continue;
            if (k < -eps) strict++;
            if (k < bd) { bd = k; best = order[it - sx.begin()]; }
        }
        if (best < 0) { c.fail("cell-without-site", "cell " + num(i) + " " + g::str(q) + " contains no site"); return; }
        if (strict > 1) { c.fail("cell-with-two-sites", "cell " + num(i) + " " + g::str(q) + " contains " + num(strict) + " sites"); return; }
        if (by[best] >= 0) { c.fail("site-with-two-cells", "cells " + num(by[best]) + " and " + num(i) + " both belong to " + g::str(site[best])); return; }
        own[i] = best; by[best] = i;
    }
    // nearest site
    double L = 0; for (auto& p : s.outer) L = std::max(L, g::dist(p, s.outer[0]));
    double tol = eps;
    auto nearest = [&](V q, int si, size_t cell) {
        double ds = g::dist(q, site[si]);
        for (auto it = std::lower_bound(sx.begin(), sx.end(), V{q.x - ds, -1e300}); it != sx.end() && it->x <= q.x + ds; ++it) {
            double dt = g::dist(q, *it);
            if (dt < ds - tol && d.sees(q, *it, eps)) {
                c.fail("not-nearest", "point " + g::str(q) + " of the cell of " + g::str(site[si]) + " (cell " + num(cell) + ") is nearer to the visible site " + g::str(*it)); return false;
            }
        }
        return true;
    };
    std::map<std::pair<int, int>, int> dir;
    for (size_t i = 0; i < m.cells.size(); i++) {
        g::Poly q = m.cell(i); auto& k = m.cells[i];
        for (size_t j = 0; j < q.size(); j++) {
            dir[{k[j], k[(j + 1) % k.size()]}] = i;
            if (!nearest(q[j], own[i], i)) return;
            if (m.cells.size() < 400 && !nearest(g::mid(q[j], q[(j + 1) % q.size()]), own[i], i)) return;
        }
        V ce = g::centroid(q); if (g::where(q, ce, eps) > 0 && !nearest(ce, own[i], i)) return;
    }
    for (auto& e : dir) {
        auto o = dir.find({e.first.second, e.first.first}); if (o == dir.end()) continue;
        for (int k : {e.first.first, e.first.second}) {
            V p = m.pts[k]; double a = g::dist(p, site[own[e.second]]), b = g::dist(p, site[own[o->second]]);
            if (std::fabs(a - b) > tol) { c.fail("edge-not-equidistant", "corner " + g::str(p) + " separates the sites " + g::str(site[own[e.second]]) + " and " + g::str(site[own[o->second]]) + " at distances " + num(a) + " and " + num(b)); return; }
        }
    }
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = build a Region (holes, seeds), run TriangleVoronoiGenerator, read both meshes back; non-trivial when the mesh has at least 2 cells";
        for (auto& sp : meshSpaces(e.thorough())) {
            auto get = sp.get;
            e.add(sp.name, sp.n, sp.chunk, [get](uint64_t i, Case& c) { check(get(i), c); }, [get](uint64_t i) { return get(i).text(); });
        }
    });
}
