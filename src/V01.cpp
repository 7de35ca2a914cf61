// V01: the Voronoi cells tile the domain minus its holes.
#include "common.hpp"
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = build a Region (holes, seeds), run TriangleVoronoiGenerator, read the mesh back; non-trivial when the mesh has at least 2 cells";
        auto spaces = meshSpaces(e.thorough()); spaces.push_back(hugeSpace());
        for (auto& sp : spaces) {
            auto get = sp.get;
            e.add(sp.name, sp.n, sp.chunk, [get](uint64_t i, Case& c) {
                Scn s = get(i);
                Region r = buildScn(s, c);
                Pts seeds = r.getSeedPoints();
                TriangleVoronoiGenerator gen(seeds, r); c.op();
                M m = readMesh(gen.getMesh()); c.op();
                c.trivial = m.cells.size() < 2; c.state(hashMesh(m));
                checkTiling(m, s.domain(), resolution(s), c);
            }, [get](uint64_t i) { return get(i).text(); });
        }
    });
}
