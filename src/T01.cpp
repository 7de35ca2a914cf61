// T01: conforming Delaunay mesh.
#include "common.hpp"
static void checkConforming(const M& t, const Scn& s, Region& r, const Pts& seeds, const char* what, Case& c) {
    if (!indicesOk(t, c)) return;
    for (auto& k : t.cells) if (k.size() != 3) { c.fail("not-a-triangle", std::string(what) + ": element with " + num(k.size()) + " corners"); return; }
    g::Poly want = corners(r), extra; for (auto& p : vs(seeds)) want.push_back(p);
    if (!checkVertices(t, want, extra, c, what)) return;
    g::Domain d = s.domain(); double eps = resolution(s);
    for (auto& p : extra) if (d.bnd(p) > eps) { c.fail("extra-vertex-inside", std::string(what) + ": added vertex " + g::str(p) + " is not on the boundary"); return; }
    if (!checkTiling(t, d, 1e-6 + (s.holes.empty() ? 0 : eps), c)) return;
    if (!checkLocalDelaunay(t, c, what, [](V, V) { return false; })) return;
    for (size_t i = 0; i < t.cells.size(); i++) {
        g::Poly q = t.cell(i); V o; double rad;
        if (!g::circumcircle(q[0], q[1], q[2], o, rad) || d.where(o, eps) < 0) { c.fail("circumcenter-outside", std::string(what) + ": the circumcenter " + g::str(o) + " of " + g::str(q) + " lies outside of the domain"); return; }
    }
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = generate the conforming Delaunay mesh of one scenario, directly and through the Voronoi generator; non-trivial when it has at least 2 triangles";
        auto spaces = meshSpaces(e.thorough()); spaces.push_back(hugeSpace());
        for (auto& sp : spaces) {
            auto get = sp.get;
            e.add(sp.name, sp.n, sp.chunk, [get](uint64_t i, Case& c) {
                Scn s = get(i);
                Region r = buildScn(s, c);
                Pts seeds = r.getSeedPoints();
                TriangleDelaunayGenerator dg(seeds, r);
                Mesh<Triangle> conf = dg.getConformingDelaunayTriangulation(); c.op();
                M t = readMesh(conf);
                c.trivial = t.cells.size() < 2; c.state(hashMesh(t));
                checkConforming(t, s, r, seeds, "conforming mesh", c);
                if (c.failed()) return;
                // the triangles' own circumcenters are what the Voronoi mesh is made of
                for (size_t k = 0; k < t.cells.size(); k++) {
                    g::Poly q = t.cell(k); V o; double rad; g::circumcircle(q[0], q[1], q[2], o, rad);
                    V lib = v(conf.getPolygon(k).getCircumcenter()); c.op();
                    if (g::dist(o, lib) > resolution(s)) { c.fail("circumcenter", "triangle " + g::str(q) + " reports the circumcenter " + g::str(lib) + " instead of " + g::str(o)); return; }
                }
                TriangleVoronoiGenerator gen(seeds, r); c.op();
                M t2 = readMesh(gen.getTriangulation());
                checkConforming(t2, s, r, seeds, "triangulation of the Voronoi mesh", c);
            }, [get](uint64_t i) { return get(i).text(); });
        }
    });
}
