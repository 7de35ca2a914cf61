// V04: border flags of the points of generated meshes.
#include "common.hpp"
// the border of a mesh is made of the edges that belong to one element only
template <class T> static bool checkFlags(Mesh<T>& m, const Scn& s, Case& c, const std::string& what) {
    M r = readMesh(m);
    if (!indicesOk(r, c)) return false;
    std::map<std::pair<int, int>, int> uses; std::set<int> used, border;
    for (auto& k : r.cells) for (size_t j = 0; j < k.size(); j++) { int a = k[j], b = k[(j + 1) % k.size()]; uses[{std::min(a, b), std::max(a, b)}]++; used.insert(a); }
    for (auto& u : uses) if (u.second == 1) { border.insert(u.first.first); border.insert(u.first.second); }
    g::Domain d = s.domain(); double near = std::max(2e-5, 2 * resolution(s));
    std::vector<Point> byList = m.getPoints().getList();
    for (int k : used) {
        bool flag = m.getPoint(k).isInBoundary(); c.op();
        if (flag != byList[k].isInBoundary() || flag != m.getPoints()[k].isInBoundary()) { c.fail("flags-differ", what + ": point " + num(k) + " answers differently depending on how it is asked for"); return false; }
        if (flag != (border.count(k) > 0)) { c.fail(flag ? "inner-point-flagged" : "border-point-not-flagged", what + ": point " + num(k) + " at " + g::str(r.pts[k]) + (flag ? " is reported as a border point, but all its edges have two elements" : " is not reported as a border point, but one of its edges has one element only")); return false; }
        if (flag && d.bnd(r.pts[k]) > near) { c.fail("flagged-off-border", what + ": point " + num(k) + " at " + g::str(r.pts[k]) + " is reported as a border point at " + num(d.bnd(r.pts[k])) + " of the border"); return false; }
        if (!flag && d.bnd(r.pts[k]) < 1e-9) { c.fail("border-point-not-flagged", what + ": point " + num(k) + " at " + g::str(r.pts[k]) + " lies on the border and is not reported so"); return false; }
    }
    return true;
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = generate the Voronoi mesh, its triangulation, the conforming and the constrained Delaunay mesh of one scenario and compare the border flag of every point with the edges that have one element; non-trivial when the Voronoi mesh has at least 2 cells";
        auto spaces = meshSpaces(e.thorough()); spaces.push_back(hugeSpace());
        for (auto& sp : spaces) {
            auto get = sp.get;
            e.add(sp.name, sp.n, sp.chunk, [get](uint64_t i, Case& c) {
                Scn s = get(i);
                Region r = buildScn(s, c);
                Pts seeds = r.getSeedPoints();
                TriangleVoronoiGenerator gen(seeds, r); c.op();
                c.trivial = gen.getMesh().getPolygons().size() < 2;
                if (!checkFlags(gen.getTriangulation(), s, c, "triangulation of the Voronoi mesh")) return;
                TriangleDelaunayGenerator dg(seeds, r);
                Mesh<Triangle> conf = dg.getConformingDelaunayTriangulation(); c.op();
                if (!checkFlags(conf, s, c, "conforming Delaunay mesh")) return;
                Mesh<Triangle> cons = dg.getConstrainedDelaunayTriangulation(); c.op();
                if (!checkFlags(cons, s, c, "constrained Delaunay mesh")) return;
                g::Poly sd = vs(seeds); if (sd.size() <= 80 && s.eps == 0) {
                    Segs rs; for (auto& x : clearSegs(s, sd, {}, 3)) { bool ok = true; for (auto& y : rs) ok = ok && (x.first == y.first || x.second == y.second || x.first == y.second || x.second == y.first || g::segSegDist(x.first, x.second, y.first, y.second) > 1e-6); if (ok) rs.push_back(x); }
                    if (!rs.empty()) { std::vector<PointSegment> ps; for (auto& x : rs) ps.push_back(PointSegment(Point(x.first.x, x.first.y), Point(x.second.x, x.second.y))); Mesh<Triangle> res = dg.getConstrainedDelaunayTriangulation(ps); c.op(); if (!checkFlags(res, s, c, "constrained mesh with restricted segments")) return; }
                }
                if (!checkFlags(gen.getMesh(), s, c, "Voronoi mesh")) return;
                Mesh<Polygon> copy = gen.getMesh();
                if (!checkFlags(copy, s, c, "copy of the Voronoi mesh")) return;
                c.state(mc::mix(hashMesh(readMesh(copy)), hashMesh(readMesh(cons))));
            }, [get](uint64_t i) { return get(i).text(); });
        }
    });
}
