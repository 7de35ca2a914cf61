// M01: histories of creations, copies, queries and destructions with every memory access and operation monitored
// (address and undefined behaviour sanitizers); what an object shows must not change when others are destroyed.
#include "common.hpp"
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/voronoi/DelaunayToVoronoi.h>
#include <memory>
template <class T> using U = std::unique_ptr<T>;

// every query there is on a mesh, its elements and its records
template <class T> static std::string consume(Mesh<T>& m, Case& c, bool deep) {
    std::string s = dumpMesh(m); Pts& p = m.getPoints().getList(); double sum = 0; int n = m.getPolygons().size();
    const Mesh<T>& k = m; if ((int)k.getPolygons().size() != n || k.getPoints().getList().size() != p.size()) c.fail("accessors-differ", "const");
    for (int i = 0; i < n; i++) {
        T e = m.getPolygon(i); sum += e.getArea(p) + e.signedArea(p) + e.getCentroid(p).getX() + e.getAverage(p).getY() + e.getDiameter(p) + e.getMaxDistance(p) + e.isConvex(p) + e.isClockwise(p) + e.numberOfSides() + e.containsPoint(p, e.getAverage(p));
        T f; f = e; sum += (f == e) + (f < e); std::vector<IndexSegment> sg; e.getSegments(sg);
        for (auto& x : sg) { NeighboursBySegment nb = m.getNeighbours(x); sum += nb.getFirst() + nb.getSecond() + x.length(p) + x.cartesianAngle(p) + e.containsEdge(x) + x.middlePoint(p).getX(); }
        for (int q : e.getPoints()) sum += m.getPointMap()->get(m.getPoint(q)).getNeighbours().size();
        s += e.getString() + e.containerEdge(p, p[e.getPoints()[0]]).getString();
        if (deep) try { Polygon q = e; Pts own = q.getPoints(p); Polygon w(own); Pts a = own, b = own, d = own; sum += EarTriangulationGenerator().triangulate(w, a).size() + DelaunayTriangulationGenerator().triangulate(w, d).size(); if (w.isConvex(b)) sum += CenterTriangulationGenerator().triangulate(w, b).size(); Region rg(own); sum += rg.getBox().getWidth(); } catch (std::invalid_argument&) {}      // a cell with corners closer than the resolution
    }
    m.getNeighbours(IndexSegment(-5, 100000)); c.op(3 + n * 10);
    return std::isfinite(sum) ? s : s + " non-finite";
}
struct World {
    U<Region> a, b; U<TriangleVoronoiGenerator> vg; U<TriangleDelaunayGenerator> dg; U<Mesh<Polygon>> m, n; U<Mesh<Triangle>> t; U<DelaunayInfo> info; U<Polygon> cell; U<UniqueList<Point>> pts; U<PointGenerator> pg; std::vector<Hole> holes;
    std::string wm, wn, wt, winfo;
    std::string show(Region& r) { return dumpRegion(r); }
};
struct Op { std::string name; std::function<bool(World&, Case&)> run; };      // false: not applicable here
static const g::Poly DOM[] = {{{0, 0}, {10, 0}, {10, 10}, {0, 10}}, {{10, 0}, {20, 0}, {20, 20}, {0, 20}, {0, 10}, {10, 10}}, {{0, 0}, {10, 0}, {13, 7}, {3, 7}}};
static std::vector<Op> ops() {
    std::vector<Op> o;
    for (int k = 0; k < 2; k++) o.push_back({"a := region " + num(k), [k](World& w, Case& c) { Pts p = P(DOM[k]); w.a.reset(new Region(p)); Pts s = P(gridSeeds(DOM[k], 3, 4)); w.a->addSeedPoints(s); c.op(2); return true; }});
    o.push_back({"b := copy of a", [](World& w, Case& c) { if (!w.a) return false; w.b.reset(new Region(*w.a)); c.op(); return true; }});
    o.push_back({"a = b", [](World& w, Case& c) { if (!w.a || !w.b) return false; *w.a = *w.b; c.op(); if (w.show(*w.a) != w.show(*w.b)) c.fail("assigned-region-differs", ""); return true; }});
    o.push_back({"destroy a", [](World& w, Case& c) { if (!w.a) return false; std::string s = w.b ? w.show(*w.b) : ""; w.a.reset(); c.op(); if (w.b && w.show(*w.b) != s) c.fail("copy-changed", "destroying a region changes its copy"); return true; }});
    o.push_back({"holes in a", [](World& w, Case& c) { if (!w.a) return false; if (w.a->getHoles().size() > 3) return false; Pts h{Point(4, 7), Point(6, 7), Point(5, 8.5)}; { PolygonalHole q(h); if (w.a->getHoles().empty() && w.a->containsPoint(Point(4, 7))) w.a->addHole(q); w.holes.push_back(q); } c.op(2); for (Hole& x : w.a->getHoles()) { x.getCenter(); x.getPoints(); x.containsPoint(Point(5, 7.5)); } return true; }});
    o.push_back({"clip a", [](World& w, Case& c) { if (!w.a) return false; if (!w.a->getHoles().empty()) return false; double top = 0; for (auto& p : w.a->getRegionPoints()) top = std::max(top, p.getY()); Pts h{Point(-1, top - 0.5), Point(30, top - 0.5), Point(30, top + 1), Point(-1, top + 1)}; PolygonalHole q(h); w.a->addHole(q); c.op(); return true; }});
    o.push_back({"mutate a", [](World& w, Case& c) { if (!w.a) return false; if (!w.a->getHoles().empty()) return false; Pts p = P(DOM[2]); w.a->mutate(p); c.op(); return true; }});
    o.push_back({"generate seeds of a", [](World& w, Case& c) { if (!w.a) return false; if (!w.pg) w.pg.reset(new PointGenerator(functions::constantAlternating(), functions::constant())); w.a->cleanSeedPoints(); w.a->generateSeedPoints(*w.pg, 4, 3); c.op(2); PointGenerator copy = *w.pg; Pts out; copy.generate(out, w.a->getBox(), 2, 2); return true; }});
    o.push_back({"voronoi of a", [](World& w, Case& c) { if (!w.a) return false; Pts s = w.a->getSeedPoints(); w.vg.reset(new TriangleVoronoiGenerator(s, *w.a)); c.op(); return true; }});
    o.push_back({"destroy the voronoi generator", [](World& w, Case& c) { if (!w.vg) return false; w.vg.reset(); c.op(); return true; }});
    o.push_back({"m := its mesh", [](World& w, Case& c) { if (!w.vg) return false; w.m.reset(new Mesh<Polygon>(w.vg->getMesh())); w.wm = dumpMesh(*w.m); c.op(); return true; }});
    o.push_back({"n := its triangulation", [](World& w, Case& c) { if (!w.vg) return false; w.n.reset(new Mesh<Polygon>(w.vg->getTriangulation())); w.wn = dumpMesh(*w.n); c.op(); return true; }});
    o.push_back({"m = n", [](World& w, Case& c) { if (!w.m || !w.n) return false; *w.m = *w.n; w.wm = w.wn; c.op(); return true; }});
    o.push_back({"delaunay generator of a", [](World& w, Case& c) { if (!w.a) return false; w.dg.reset(new TriangleDelaunayGenerator(w.a->getSeedPoints(), *w.a)); c.op(); return true; }});
    o.push_back({"destroy the delaunay generator", [](World& w, Case& c) { if (!w.dg) return false; w.dg.reset(); c.op(); return true; }});
    o.push_back({"t := conforming", [](World& w, Case& c) { if (!w.dg) return false; w.t.reset(new Mesh<Triangle>(w.dg->getConformingDelaunayTriangulation())); w.wt = dumpMesh(*w.t); c.op(); return true; }});
    o.push_back({"t := constrained", [](World& w, Case& c) { if (!w.dg) return false; Mesh<Triangle> x = w.dg->getConstrainedDelaunayTriangulation(); if (w.t) *w.t = x; else w.t.reset(new Mesh<Triangle>(x)); w.wt = dumpMesh(*w.t); c.op(); return true; }});
    o.push_back({"t := restricted", [](World& w, Case& c) { if (!w.dg || !w.a) return false; Pts s = w.a->getSeedPoints(); std::vector<PointSegment> r; if (s.size() > 3) r.push_back(PointSegment(s[0], s[1])); w.dg.reset(new TriangleDelaunayGenerator(s, *w.a)); w.t.reset(new Mesh<Triangle>(w.dg->getConstrainedDelaunayTriangulation(r))); w.wt = dumpMesh(*w.t); c.op(2); return true; }});
    o.push_back({"delaunay data", [](World& w, Case& c) { if (!w.dg) return false; w.info.reset(new DelaunayInfo(w.dg->getConformingDelaunay())); w.winfo.clear(); c.op(); return true; }});
    o.push_back({"query all meshes", [](World& w, Case& c) {
        if (!w.m && !w.n && !w.t) return false;
        if (w.m && consume(*w.m, c, true).compare(0, w.wm.size(), w.wm)) c.fail("mesh-changed", "m");
        if (w.n && consume(*w.n, c, false).compare(0, w.wn.size(), w.wn)) c.fail("mesh-changed", "n");
        if (w.t && consume(*w.t, c, true).compare(0, w.wt.size(), w.wt)) c.fail("mesh-changed", "t");
        return true; }});
    o.push_back({"destroy m", [](World& w, Case& c) { if (!w.m) return false; w.m.reset(); c.op(); return true; }});
    o.push_back({"print and read m", [](World& w, Case& c) { if (!w.m) return false; w.m->printInFile("m.txt"); w.m->getSegments()->printInFile("s.txt"); w.m->getPointMap()->printInFile("p.txt"); Mesh<Polygon> x; x.createFromFile("m.txt", 0); std::string s = consume(x, c, false); *w.m = x; w.wm = dumpMesh(*w.m); c.op(4); return true; }});
    o.push_back({"take a cell and the points of m", [](World& w, Case& c) { if (!w.m) return false; w.cell.reset(new Polygon(w.m->getPolygon(0))); w.pts.reset(new UniqueList<Point>(w.m->getPoints())); c.op(2); return true; }});
    o.push_back({"use the cell", [](World& w, Case& c) { if (!w.cell || !w.pts) return false; Pts& p = w.pts->getList(); double s = w.cell->getArea(p) + w.cell->getDiameter(p) + w.cell->getCentroid(p).getX(); Region r(*w.cell, p); Pts q = r.getRegionPoints(); if (!(std::fabs(std::fabs(geometry_functions::area(q)) - std::fabs(w.cell->getArea(p))) < 1e-9) || !std::isfinite(s)) c.fail("cell-changed", num(s)); Polygon z(*w.cell); z.fixCCW(p); z = *w.cell; Point last = p.back(); w.pts->delete_element(last); w.pts->push_back(last); w.pts->pop_front(); w.pts.reset(new UniqueList<Point>(*w.pts)); w.cell.reset(); c.op(9); return true; }});
    o.push_back({"m := voronoi of the delaunay data", [](World& w, Case& c) { if (!w.info) return false; DelaunayToVoronoi d(*w.info); w.m.reset(new Mesh<Polygon>(d.getMesh())); w.wm = dumpMesh(*w.m); if (w.winfo.empty()) w.winfo = w.wm; else if (w.winfo != w.wm) c.fail("data-changed", "the same Delaunay data gives another mesh later"); c.op(2); return true; }});
    o.push_back({"query the delaunay generator", [](World& w, Case& c) { if (!w.dg) return false; w.dg->getConstrainedDelaunayTriangulation(); w.dg->getConformingDelaunayTriangulation(); c.op(2); return true; }});
    o.push_back({"t := restricted, by the same generator", [](World& w, Case& c) { if (!w.dg || !w.a) return false; Pts s = w.a->getSeedPoints(); if (s.size() < 2) return false; U<Mesh<Triangle>> old; old.swap(w.t); std::string was = w.wt; w.t.reset(new Mesh<Triangle>(w.dg->getConstrainedDelaunayTriangulation({PointSegment(s[0], s[1])}))); w.wt = dumpMesh(*w.t); c.op(2); if (old && dumpMesh(*old) != was) c.fail("mesh-changed", "an earlier mesh of the generator"); return true; }});
    return o;
}
// the histories start in one of these situations
static void start(int k, World& w, Case& c, const std::vector<Op>& o) {
    auto go = [&](std::initializer_list<int> l) { for (int i : l) o[i].run(w, c); };
    if (k == 1) go({0}); if (k == 2) go({1, 9, 11, 12}); if (k == 3) go({0, 14, 16, 19}); if (k == 4) go({0, 5, 9, 11, 10, 4, 23}); if (k == 5) go({1, 14, 19});
}
static void finish(World& w, Case& c) {
    if (w.m && dumpMesh(*w.m) != w.wm) c.fail("mesh-changed", "m"); if (w.n && dumpMesh(*w.n) != w.wn) c.fail("mesh-changed", "n"); if (w.t && dumpMesh(*w.t) != w.wt) c.fail("mesh-changed", "t");
    uint64_t h = 1; for (auto* s : {&w.wm, &w.wn, &w.wt}) h = mc::mix(h, mc::hash_str(*s)); if (w.a) h = mc::mix(h, mc::hash_str(w.show(*w.a))); if (w.b) h = mc::mix(h, 3 + mc::hash_str(w.show(*w.b)));
    h = mc::mix(h, (w.vg ? 1 : 0) + (w.dg ? 2 : 0) + (w.cell ? 4 : 0)); c.state(h);
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one history of operations on regions, generators, meshes and cells, or one complete meshing with every query, under address and undefined-behaviour monitors; histories that contain an operation not applicable in its place are cut short and counted as trivial";
        auto op = std::make_shared<std::vector<Op>>(ops()); uint64_t n = op->size();
        int depth = e.thorough() ? 4 : 3; uint64_t tot = 6; for (int k = 0; k < depth; k++) tot *= n;
        e.add("histories of objects", tot, 2000, [=](uint64_t i, Case& c) {
            Dec d(i); int st = d.take(6); World w; start(st, w, c, *op);
            for (int k = 0; k < depth; k++) if (!(*op)[d.take(n)].run(w, c)) { c.trivial = true; break; }
            finish(w, c);
        }, [=](uint64_t i) { Dec d(i); std::string s = "start " + num(d.take(6)); for (int k = 0; k < depth; k++) s += "; " + (*op)[d.take(n)].name; return s; });
        for (auto& sp : meshSpaces(e.thorough())) {
            auto get = sp.get; uint64_t step = e.thorough() ? (sp.n > 60000 ? 5 : 1) : sp.n > 60000 ? 101 : sp.n > 4000 ? 11 : 3;
            if (sp.name == "large grids") step = 1;
            e.add("monitored: " + sp.name, sp.n / step, std::max<uint64_t>(1, sp.chunk / 4), [get, step](uint64_t i, Case& c) {
                Scn s = get(i * step); World w; w.a.reset(new Region(buildScn(s, c))); Pts sd = w.a->getSeedPoints();
                w.vg.reset(new TriangleVoronoiGenerator(sd, *w.a)); w.dg.reset(new TriangleDelaunayGenerator(sd, *w.a)); w.a.reset(); bool deep = sd.size() < 12;
                w.m.reset(new Mesh<Polygon>(w.vg->getMesh())); w.n.reset(new Mesh<Polygon>(w.vg->getTriangulation())); w.wm = dumpMesh(*w.m); w.wn = dumpMesh(*w.n); w.vg.reset();
                consume(*w.m, c, deep); consume(*w.n, c, false);
                w.t.reset(new Mesh<Triangle>(w.dg->getConstrainedDelaunayTriangulation())); w.wt = dumpMesh(*w.t); w.dg.reset(); consume(*w.t, c, false); finish(w, c);
            }, [get, step](uint64_t i) { return get(i * step).text(); });
        }
    });
}
