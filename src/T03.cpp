// T03: one Delaunay generator, any sequence of queries.
#include "common.hpp"
struct Conf { std::string name; Scn s; std::vector<PointSegment> a, b; };
static std::vector<Conf> confs() {
    std::vector<Conf> r;
    auto seg = [](V p, V q) { return PointSegment(Point(p.x, p.y), Point(q.x, q.y)); };
    Scn s; s.outer = {{0, 0}, {10, 0}, {10, 10}, {0, 10}}; s.seeds = {{2, 3}, {8, 2.5}, {5, 5}, {3, 8}, {7.5, 7}, {1, 5}};
    r.push_back({"square", s, {seg({1, 5}, {8, 2.5})}, {seg({3, 8}, {7.5, 7}), seg({2, 3}, {7.5, 7})}});
    s.seeds = {}; r.push_back({"square without seeds", s, {seg({0, 0}, {10, 10})}, {seg({0, 10}, {10, 0})}});
    s.seeds = {{5, 2.5}, {5, 7.5}, {0.5, 5}, {9.5, 5}}; r.push_back({"square, thin strip", s, {seg({0.5, 5}, {9.5, 5})}, {seg({5, 2.5}, {5, 7.5})}});
    Scn l; l.outer = curated()[1].second; l.seeds = {{12, 2}, {18, 3}, {15, 8}, {15, 15}, {5, 15}, {2, 12}}; r.push_back({"L", l, {seg({12, 2}, {15, 15})}, {seg({5, 15}, {15, 15}), seg({15, 8}, {18, 3})}});
    Scn u; u.outer = curated()[2].second; u.seeds = admissible(u, irregularSeeds(u.outer, 14, 2)); r.push_back({"U", u, {seg(u.seeds[0], u.outer[0])}, {}}); 
    // keep only restricted segments that stay inside
    { g::Domain d = u.domain(); std::vector<PointSegment> ok; for (size_t i = 0; i < u.seeds.size() && ok.empty(); i++) for (size_t j = i + 1; j < u.seeds.size(); j++) if (d.sees(u.seeds[i], u.seeds[j], 0.2) && g::dist(u.seeds[i], u.seeds[j]) > 4) { ok = {seg(u.seeds[i], u.seeds[j])}; break; } r.back().a = ok; r.back().b = ok; }
    Scn h; h.outer = {{0, 0}, {20, 0}, {20, 20}, {0, 20}}; HoleSpec q; q.poly = {{8, 8}, {12, 8}, {12, 12}, {8, 12}}; h.holes = {q}; h.seeds = {{4, 4}, {16, 4}, {4, 16}, {16, 16}, {10, 3}, {3, 10}}; 
    r.push_back({"square with hole", h, {seg({4, 4}, {16, 4})}, {seg({3, 10}, {8, 8}), seg({4, 16}, {16, 16})}});
    Scn t; t.outer = {{0, 0}, {12, 1}, {5, 9}}; t.seeds = {{5, 3}, {6, 5}, {4, 4}}; r.push_back({"triangle", t, {seg({5, 3}, {6, 5})}, {seg({4, 4}, {12, 1})}});
    Scn cl; cl.outer = h.outer; HoleSpec x; x.poly = {{18, 8}, {23, 9}, {21, 13}}; cl.holes = {x}; cl.seeds = h.seeds; r.push_back({"clipped square", cl, {seg({4, 4}, {16, 16})}, {seg({10, 3}, {3, 10})}});
    return r;
}
static const char* QN[] = {"conforming", "constrained", "restricted-A", "restricted-B", "restricted-none", "info+mesh"};
// one query on generator d; the result is kept by the caller
struct Res { int kind; Mesh<Triangle> t; Mesh<Polygon> p; std::string dump; };
static void query(TriangleDelaunayGenerator& d, const Conf& c, int q, Res& r) {
    r.kind = q;
    if (q == 0) r.t = d.getConformingDelaunayTriangulation();
    if (q == 1) r.t = d.getConstrainedDelaunayTriangulation();
    if (q == 2) r.t = d.getConstrainedDelaunayTriangulation(c.a);
    if (q == 3) r.t = d.getConstrainedDelaunayTriangulation(c.b);
    if (q == 4) r.t = d.getConstrainedDelaunayTriangulation(std::vector<PointSegment>());
    if (q == 5) { DelaunayInfo i = d.getConformingDelaunay(); r.p = d.initializeMesh<Polygon>(); r.dump = "info " + num(i.triangles.size()) + " " + num(i.meshPoints.size()) + " " + num(i.edges.size()) + " " + num(i.circumcenters.size()) + " " + num(i.realPoints.size()) + "\n"; }
    r.dump += q == 5 ? dumpMesh(r.p) : dumpMesh(r.t);
}
static std::string now(Res& r) { std::string h = r.kind == 5 ? r.dump.substr(0, r.dump.find('\n') + 1) : ""; return h + (r.kind == 5 ? dumpMesh(r.p) : dumpMesh(r.t)); }

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one sequence of queries on one generator (or on two interleaved ones), each compared with a new generator's answer; all are non-trivial from two queries on";
        auto cf = std::make_shared<std::vector<Conf>>(confs());
        int depth = e.thorough() ? 6 : 4;
        uint64_t per = 1; for (int k = 0; k < depth; k++) per *= 6;
        e.add("query histories of one generator", cf->size() * per, 200, [=](uint64_t i, Case& c) {
            Dec d(i); auto& f = (*cf)[d.take(cf->size())];
            Region r = buildRegion(f.s, c); Pts seeds = r.getSeedPoints();
            TriangleDelaunayGenerator gen(seeds, r);
            std::vector<Res> res(depth);
            for (int k = 0; k < depth; k++) {
                int q = d.take(6);
                query(gen, f, q, res[k]); c.op();
                TriangleDelaunayGenerator fresh(seeds, r); Res w; query(fresh, f, q, w); c.op();
                if (w.dump != res[k].dump) { c.fail("differs-from-fresh", "query " + num(k + 1) + " (" + QN[q] + "): " + firstDiff(res[k].dump, w.dump)); return; }
                c.state(mc::hash_str(w.dump));
                for (int j = 0; j < k; j++) if (now(res[j]) != res[j].dump) { c.fail("earlier-mesh-changed", "the mesh of query " + num(j + 1) + " (" + QN[res[j].kind] + ") changed with query " + num(k + 1) + " (" + QN[q] + "): " + firstDiff(now(res[j]), res[j].dump)); return; }
                if (k == 0) { Case cc; if (q != 5 ? !checkAdjacency(res[k].t, cc, QN[q], true) : !checkAdjacency(res[k].p, cc, QN[q], true)) { c.fail("adjacency", cc.fails[0].detail); return; } }
            }
        }, [=](uint64_t i) { Dec d(i); std::string s = (*cf)[d.take(cf->size())].name + ":"; for (int k = 0; k < depth; k++) s += std::string(" ") + QN[d.take(6)]; return s; });
        // many queries of one generator: a pattern of up to three queries over and over
        e.add("many queries of one generator", cf->size() * 216, 8, [=](uint64_t i, Case& c) {
            Dec d(i); auto& f = (*cf)[d.take(cf->size())]; int q[3]; for (int& x : q) x = d.take(6); Region r = buildRegion(f.s, c); Pts seeds = r.getSeedPoints(); TriangleDelaunayGenerator gen(seeds, r); std::string want[6]; Res first[3];
            for (int k = 0; k < 45; k++) { int x = q[k % 3]; if (want[x].empty()) { TriangleDelaunayGenerator fresh(seeds, r); Res w; query(fresh, f, x, w); want[x] = w.dump; c.state(mc::hash_str(w.dump)); c.op(); }
                Res a; query(gen, f, x, a); c.op(); if (a.dump != want[x]) { c.fail("differs-from-fresh", "query " + num(k + 1) + " (" + QN[x] + "): " + firstDiff(a.dump, want[x])); return; }
                if (k < 3) first[k] = a; if (k % 9 == 8 || k == 44) for (auto& z : first) if (now(z) != z.dump) { c.fail("earlier-mesh-changed", "the mesh of a query (" + std::string(QN[z.kind]) + ") changed by query " + num(k + 1)); return; } }
        }, [=](uint64_t i) { Dec d(i); std::string s = (*cf)[d.take(cf->size())].name + ": 15 times"; for (int k = 0; k < 3; k++) s += std::string(" ") + QN[d.take(6)]; return s; });
        // two generators, queries interleaved; op = (generator, query in {conforming, constrained, restricted-A})
        int dep2 = e.thorough() ? 5 : 3; uint64_t per2 = 1; for (int k = 0; k < dep2; k++) per2 *= 6;
        uint64_t nc = cf->size();
        e.add("query histories of two generators", nc * nc * per2, 300, [=](uint64_t i, Case& c) {
            Dec d(i); auto &f0 = (*cf)[d.take(nc)], &f1 = (*cf)[d.take(nc)];
            const Conf* f[2] = {&f0, &f1};
            Region r0 = buildRegion(f0.s, c), r1 = buildRegion(f1.s, c);
            TriangleDelaunayGenerator g0(r0.getSeedPoints(), r0), g1(r1.getSeedPoints(), r1);
            TriangleDelaunayGenerator* gg[2] = {&g0, &g1}; Region* rr[2] = {&r0, &r1};
            std::vector<Res> res(dep2);
            for (int k = 0; k < dep2; k++) {
                int o = d.take(6), w = o & 1, q = o >> 1;
                query(*gg[w], *f[w], q, res[k]); c.op();
                TriangleDelaunayGenerator fresh(rr[w]->getSeedPoints(), *rr[w]); Res x; query(fresh, *f[w], q, x); c.op();
                if (x.dump != res[k].dump) { c.fail("differs-from-fresh", "query " + num(k + 1) + " (" + QN[q] + " on generator " + num(w) + "): " + firstDiff(res[k].dump, x.dump)); return; }
                c.state(mc::hash_str(x.dump));
                for (int j = 0; j < k; j++) if (now(res[j]) != res[j].dump) { c.fail("earlier-mesh-changed", "the mesh of query " + num(j + 1) + " changed with query " + num(k + 1)); return; }
            }
        }, [=](uint64_t i) { Dec d(i); std::string s = (*cf)[d.take(nc)].name + " / "; s += (*cf)[d.take(nc)].name + ":"; for (int k = 0; k < dep2; k++) { int o = d.take(6); s += std::string(" ") + QN[o >> 1] + "@" + num(o & 1); } return s; });
        // a generator keeps its own copy of region and seeds
        e.add("inputs changed after construction", cf->size() * 3 * 6, 20, [=](uint64_t i, Case& c) {
            Dec d(i); auto& f = (*cf)[d.take(cf->size())]; int how = d.take(3), q = d.take(6);
            Region r = buildRegion(f.s, c); Pts seeds = r.getSeedPoints(); Region keep(r); Pts ks = seeds;
            TriangleDelaunayGenerator gen(seeds, r);
            if (how == 0) { Pts p{Point(0, 0), Point(1, 0), Point(0, 1)}; r.mutate(p); } 
            if (how == 1) { r.cleanInternalHoles(); r.cleanSeedPoints(); seeds.clear(); }
            if (how == 2) { Res w; query(gen, f, (q + 1) % 6, w); seeds.assign(3, Point(5, 5)); }
            c.op();
            Res a, b; query(gen, f, q, a); TriangleDelaunayGenerator fresh(ks, keep); query(fresh, f, q, b); c.op(2);
            c.state(mc::hash_str(b.dump));
            if (a.dump != b.dump) c.fail("inputs-not-copied", std::string(QN[q]) + ": " + firstDiff(a.dump, b.dump));
        }, [=](uint64_t i) { Dec d(i); std::string s = (*cf)[d.take(cf->size())].name; int h = d.take(3); return s + " change " + num(h) + " then " + QN[d.take(6)]; });
    });
}
