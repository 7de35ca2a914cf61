// I01: files. What the library prints is parsed independently; what it reads is compared with what was written.
#include "common.hpp"
#include <delynoi/models/neighbourhood/PointMap.h>
#include <delynoi/models/neighbourhood/SegmentMap.h>
#include <utilities/utilities.h>

static std::string home() { return std::string(getenv("HOME")) + "/"; }
static std::string slurp(const std::string& f) { std::ifstream i(home() + f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& s) { std::ofstream o(home() + f, std::ios::binary); o << s; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; std::string l; std::istringstream i(s); while (std::getline(i, l)) r.push_back(l); return r; }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> r; std::string w; std::istringstream i(s); while (i >> w) r.push_back(w); return r; }
static bool toInt(const std::string& s, int& x) { char* e; long v = strtol(s.c_str(), &e, 10); x = v; return !s.empty() && !*e; }
static bool toDbl(const std::string& s, double& x) { char* e; x = strtod(s.c_str(), &e); return !s.empty() && !*e; }
static int decimals(const std::string& s) { size_t p = s.find('.'); return p == std::string::npos ? 0 : (int)(s.size() - p - 1); }

struct Parsed { g::Poly pts; std::vector<std::vector<int>> cells; std::vector<std::pair<int, int>> edges; bool decOk = true; };
// exact grammar: count, points, count, edges, count, elements (number of corners, corners)
static bool parse(const std::string& text, Parsed& p, int prec, std::string& why) {
    auto l = lines(text); size_t at = 0; int n;
    auto count = [&](int& n) { if (at >= l.size()) { why = "file ends early"; return false; } auto w = words(l[at]); if (w.size() != 1 || !toInt(w[0], n) || n < 0) { why = "line " + num(at + 1) + " is no count: " + l[at]; return false; } at++; return true; };
    auto item = [&](std::vector<std::string>& w) { if (at >= l.size()) { why = "file ends early"; return false; } w = words(l[at++]); return true; };
    std::vector<std::string> w;
    if (!count(n)) return false;
    for (int i = 0; i < n; i++) { V q; if (!item(w)) return false; if (w.size() != 2 || !toDbl(w[0], q.x) || !toDbl(w[1], q.y)) { why = "line " + num(at) + " is no point: " + l[at - 1]; return false; }
        if (prec >= 0 && (decimals(w[0]) != prec || decimals(w[1]) != prec || w[0].find('e') != std::string::npos)) { why = "line " + num(at) + " does not have " + num(prec) + " decimals: " + l[at - 1]; return false; } p.pts.push_back(q); }
    if (!count(n)) return false;
    for (int i = 0; i < n; i++) { std::pair<int, int> e; if (!item(w)) return false; if (w.size() != 2 || !toInt(w[0], e.first) || !toInt(w[1], e.second)) { why = "line " + num(at) + " is no edge: " + l[at - 1]; return false; } p.edges.push_back(e); }
    if (!count(n)) return false;
    for (int i = 0; i < n; i++) { std::vector<int> c; int k; if (!item(w)) return false; for (auto& s : w) { if (!toInt(s, k)) { why = "line " + num(at) + " is no element: " + l[at - 1]; return false; } c.push_back(k); }
        if (c.empty() || c[0] != (int)c.size() - 1) { why = "line " + num(at) + " is no element: " + l[at - 1]; return false; } p.cells.push_back(std::vector<int>(c.begin() + 1, c.end())); }
    if (at != l.size()) { why = "text after the elements: " + l[at]; return false; }
    return true;
}
static std::string variantName(int v) { static const char* n[] = {"read as printed", "without edges", "indexes from 1", "indexes from 1 without edges", "indexes from 5, tabs and blanks", "through streams, after a header", "printed twice"}; return n[v]; }
static const int NV = 7;
template <class T> static void roundTrip(Mesh<T>& m, int prec, int var, Case& c) {
    DelynoiConfig::instance()->setPrecision(prec);
    M a = readMesh(m); std::string before = dumpMesh(m);
    double unit = std::pow(10, -prec);
    {   // distinct points must stay distinct at this precision
        auto r = [&](double x) { char b[400]; snprintf(b, 400, "%.*f", prec, x); return atof(b); };
        g::Poly q; for (auto& p : a.pts) q.push_back({r(p.x), r(p.y)});
        for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < i; j++) if (std::fabs(q[i].x - q[j].x) < 3e-5 && std::fabs(q[i].y - q[j].y) < 3e-5) { c.trivial = true; return; }
    }
    std::string f = "mesh.txt";
    if (var == 5) { std::ofstream o(home() + f); o << "a header line\n" << std::fixed << std::setprecision(prec); m.printInStream(o); o.close(); } else { m.printInFile(f); if (var == 6) m.printInFile(f); }
    c.op();
    if (dumpMesh(m) != before) { c.fail("printing-changes-mesh", firstDiff(before, dumpMesh(m))); return; }
    std::string text = slurp(f), why; if (var == 5) { if (text.substr(0, 14) != "a header line\n") { c.fail("format", "header overwritten"); return; } text = text.substr(14); }
    Parsed p; if (!parse(text, p, prec, why)) { c.fail("format", why); return; }
    if (p.pts.size() != a.pts.size()) { c.fail("printed-points", num(p.pts.size()) + " of " + num(a.pts.size())); return; }
    for (size_t i = 0; i < a.pts.size(); i++) for (int k = 0; k < 2; k++) { double x = k ? a.pts[i].y : a.pts[i].x, y = k ? p.pts[i].y : p.pts[i].x; if (!(std::fabs(x - y) <= 0.5000001 * unit + 4e-16 * std::fabs(x))) { c.fail("printed-points", "point " + num(i) + " " + g::str(a.pts[i]) + " printed as " + g::str(p.pts[i])); return; } }
    if (p.cells != a.cells) { c.fail("printed-elements", "elements differ"); return; }
    std::set<std::pair<int, int>> want, got; for (auto& q : a.cells) for (size_t i = 0; i < q.size(); i++) want.insert(std::minmax(q[i], q[(i + 1) % q.size()]));
    for (auto& e : p.edges) if (!got.insert(std::minmax(e.first, e.second)).second) { c.fail("printed-edges", "edge " + num(e.first) + "-" + num(e.second) + " twice"); return; }
    if (want != got) { c.fail("printed-edges", num(got.size()) + " edges instead of " + num(want.size())); return; }
    int start = 0;
    if (var >= 1 && var <= 4) {      // the same mesh written by somebody else
        bool edges = var == 2 || var == 4; start = var == 2 || var == 3 ? 1 : var == 4 ? 5 : 0; const char* sp = var == 4 ? "\t " : " "; const char* end = var == 4 ? "  \n" : "\n";
        auto l = lines(text); std::ostringstream o; o << a.pts.size() << end; for (size_t i = 0; i < a.pts.size(); i++) { auto w = words(l[i + 1]); o << (var == 4 ? " " : "") << w[0] << sp << w[1] << end; }
        if (edges) { o << p.edges.size() << end; for (auto& e : p.edges) o << e.first + start << sp << e.second + start << end; }
        o << a.cells.size() << end; for (size_t i = 0; i < a.cells.size(); i++) { o << a.cells[i].size(); for (int k : a.cells[i]) o << sp << k + start; if (i + 1 < a.cells.size() || var != 3) o << end; }
        spit(f, o.str());
    }
    Mesh<T> b; if (var == 5) { std::ifstream i(home() + f); std::string l; std::getline(i, l); b.createFromStream(i, 0); } else b.createFromFile(f, start);
    c.op(); unlink((home() + f).c_str());
    M r = readMesh(b);
    if (r.pts.size() != a.pts.size()) { c.fail("read-points", num(r.pts.size()) + " of " + num(a.pts.size())); return; }
    for (size_t i = 0; i < a.pts.size(); i++) if (!(r.pts[i] == p.pts[i])) { c.fail("read-points", "point " + num(i) + " " + g::str(p.pts[i]) + " read as " + g::str(r.pts[i])); return; }
    if (r.cells != a.cells) { c.fail("read-elements", "elements differ"); return; }
    if (!checkAdjacency(b, c, "mesh read back", a.pts.size() < 30)) return;
    for (auto& x : m.getSegments()->getMap()) if (!(b.getNeighbours(x.first) == x.second)) { c.fail("read-adjacency", x.first.getString() + " has " + b.getNeighbours(x.first).getString() + " instead of " + x.second.getString()); return; }
    for (size_t i = 0; i < a.pts.size(); i++) { auto u = b.getPointMap()->get(r.pts[i] == a.pts[i] ? m.getPoint(i) : b.getPoint(i)).getNeighbours(); auto it = m.getPointMap()->getMap().find(m.getPoint(i)); if (it == m.getPointMap()->getMap().end()) continue; auto w = it->second.getNeighbours(); std::set<int> s1(u.begin(), u.end()), s2(w.begin(), w.end()); if (s1 != s2) { c.fail("read-adjacency", "point " + num(i)); return; } }
    for (size_t i = 0; i < b.getPolygons().size(); i++) { T &x = m.getPolygon(i), &y = b.getPolygon(i); if (!(x == y) || x.numberOfSides() != y.numberOfSides()) { c.fail("read-elements", "element " + num(i)); return; } }
    // the maps' own files
    m.getSegments()->printInFile("seg.txt"); m.getPointMap()->printInFile("pt.txt"); c.op(2);
    auto sl = lines(slurp("seg.txt")); std::set<std::pair<int, int>> seen; if ((int)sl.size() != m.getSegments()->size()) { c.fail("segment-map-file", num(sl.size()) + " lines"); return; }
    for (auto& s : sl) { auto w = words(s); int q[4]; bool ok = w.size() == 4; for (int k = 0; ok && k < 4; k++) ok = toInt(w[k], q[k]); if (!ok || !(m.getNeighbours(IndexSegment(q[0], q[1])) == NeighboursBySegment(q[2], q[3])) || !seen.insert(std::minmax(q[0], q[1])).second) { c.fail("segment-map-file", s); return; } }
    auto pl = lines(slurp("pt.txt")); if ((int)pl.size() != m.getPointMap()->size()) { c.fail("point-map-file", num(pl.size()) + " lines"); return; }
    auto it = m.getPointMap()->getMap().begin();
    for (auto& s : pl) { auto w = words(s); V q; bool ok = w.size() >= 2 && toDbl(w[0], q.x) && toDbl(w[1], q.y); std::vector<int> nb; for (size_t k = 2; ok && k < w.size(); k++) { int x; ok = toInt(w[k], x); nb.push_back(x); }
        V e = v(it->first); double tol = 6e-6; if (!ok || std::fabs(q.x - e.x) > tol * std::max(1.0, std::fabs(e.x)) || std::fabs(q.y - e.y) > tol * std::max(1.0, std::fabs(e.y)) || nb != it->second.getNeighbours()) { c.fail("point-map-file", s); return; } ++it; }
    unlink((home() + "seg.txt").c_str()); unlink((home() + "pt.txt").c_str());
    c.state(mc::mix(mc::mix(hashMesh(a), prec), var));
}
static void meshCase(const Scn& s, int kind, int prec, int var, Case& c) {
    Region r = buildRegion(s, c); Pts seeds = r.getSeedPoints();
    if (kind == 0) { TriangleVoronoiGenerator g(seeds, r); c.op(); roundTrip(g.getMesh(), prec, var, c); }
    else if (kind == 1) { TriangleDelaunayGenerator g(seeds, r); Mesh<Triangle> m = g.getConformingDelaunayTriangulation(); c.op(); roundTrip(m, prec, var, c); }
    else { TriangleDelaunayGenerator g(seeds, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(); c.op(); roundTrip(m, prec, var, c); }
}
static void regionFile(const Scn& s, int prec, Case& c) {
    Region r = buildRegion(s, c); DelynoiConfig::instance()->setPrecision(prec); double half = 0.51 * std::pow(10.0, -prec); std::string before = dumpRegion(r); r.printInFile("region.txt"); c.op();
    if (dumpRegion(r) != before) { c.fail("printing-changes-region", ""); return; }
    auto l = lines(slurp("region.txt")); unlink((home() + "region.txt").c_str());
    Pts pts = r.getRegionPoints(), sd = r.getSeedPoints(); std::vector<IndexSegment> sg; r.getSegments(sg); size_t at = 0; int n;
    // what has to be there, from the scenario itself when the outline is untouched
    g::Poly want = s.outer; std::vector<int> rings{(int)s.outer.size()}; for (auto& h : s.holes) { g::Poly hp = vs(makeHole(h).getPoints()); want.insert(want.end(), hp.begin(), hp.end()); rings.push_back(hp.size()); }
    if (vs(pts) != want) { c.fail("region-points", "getRegionPoints differs from the outlines"); return; }
    std::vector<std::pair<int, int>> ws; int o = 0; for (int k : rings) { for (int i = 0; i < k; i++) ws.push_back({o + i, o + (i + 1) % k}); o += k; }
    for (auto& x : sd) want.push_back(v(x));
    if (l.empty() || !toInt(l[at++], n) || n != (int)want.size()) { c.fail("region-file", "number of points: " + (l.empty() ? std::string() : l[0])); return; }
    for (auto& x : want) { V q; std::vector<std::string> w; if (at < l.size()) w = words(l[at++]); if (w.size() != 2 || !toDbl(w[0], q.x) || !toDbl(w[1], q.y) || std::fabs(q.x - x.x) > half + 4e-16 * std::fabs(x.x) || std::fabs(q.y - x.y) > half + 4e-16 * std::fabs(x.y)) { c.fail("region-file", "line " + num(at) + " for " + g::str(x)); return; } }
    if (at >= l.size() || !toInt(l[at++], n) || n != (int)ws.size()) { c.fail("region-file", "number of segments"); return; }
    for (auto& x : ws) { std::vector<std::string> w; if (at < l.size()) w = words(l[at++]); int a, b; if (w.size() != 2 || !toInt(w[0], a) || !toInt(w[1], b) || std::make_pair(a, b) != x) { c.fail("region-file", "line " + num(at) + " for segment " + num(x.first) + "-" + num(x.second)); return; } }
    c.state(mc::hash_str(before));
}
static const char* numFmt(int f, double x, char* b) { static const char* n[] = {"%g", "%.3f", "%+.10e", "%08.4f", "%.17g"}; snprintf(b, 64, n[f], x); return b; }

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one mesh written with one precision and read back in one way, or one region or seed file; non-trivial unless the precision makes distinct points of the mesh coincide";
        bool th = e.thorough();
        auto polys = std::make_shared<std::vector<g::Poly>>(g::uptoSymmetry(g::latticePolys(3, 3, 3, 9, true)));
        static const int PR[] = {6, 10, 16, 1, 0, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 14, 15}; int NPR = th ? 17 : 7;
        {   auto get = [=](uint64_t i, int& kind, int& pr, int& var) { Dec d(i); kind = d.take(3); pr = PR[d.take(NPR)]; var = d.take(NV); int a = d.take(th ? 5 : 3) , sd = d.take(3); Scn s; const g::Affine& af = AFF[a == 0 ? 1 : a == 1 ? 3 : a == 2 ? 4 : a == 3 ? 0 : 2]; auto& p = (*polys)[d.take(polys->size())]; double k = a == 3 ? 10 : 1;
                for (auto& x : p) s.outer.push_back(g::apply(af, k * x)); g::Poly cand; if (sd) for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) if (sd == 2 || (x + y) % 3 == 0) cand.push_back(g::apply(af, (k * 0.5) * V{(double)x, (double)y})); s.seeds = admissible(s, cand, 1e-3 * af.sx); return s; };
            e.add("3x3 lattice polygons x precision x way of reading", polys->size() * 3 * NPR * NV * (th ? 5 : 3) * 3, 500, [=](uint64_t i, Case& c) { int k, p, v; Scn s = get(i, k, p, v); meshCase(s, k, p, v, c); },
                  [=](uint64_t i) { int k, p, v; Scn s = get(i, k, p, v); return num(p) + " decimals, " + variantName(v) + (k == 0 ? ", Voronoi " : k == 1 ? ", conforming " : ", constrained ") + s.text(); }); }
        auto cur = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(curated());
        auto holed = [=](uint64_t& i) { Dec d(i); int h = d.take(3), sd = d.take(4); auto& p = (*cur)[d.take(cur->size())].second; i = d.i; Scn s; s.outer = p;
            if (h) { HoleSpec q; if (h == 1) { q.circle = true; q.c = {0, 0}; q.r = 0.3; } else q.poly = {{-0.3, -0.2}, {0.25, -0.3}, {0.3, 0.3}, {-0.2, 0.1}};
                for (V o : gridSeeds(p, 23, 29)) if (g::where(p, o, 0.45) > 0) { q.c = o; for (auto& x : q.poly) x = x + o; s.holes.push_back(q); break; } }
            s.seeds = admissible(s, sd == 0 ? g::Poly() : sd == 1 ? gridSeeds(p, 4, 5) : sd == 2 ? irregularSeeds(p, 17, 2) : gridSeeds(p, 9, 7)); return s; };
        {   auto get = [=](uint64_t i, int& kind, int& pr, int& var) { Dec d(i); kind = d.take(3); pr = PR[d.take(th ? NPR : 4)]; var = d.take(NV); uint64_t r = d.i; return holed(r); };
            e.add("curated domains x precision x way of reading", cur->size() * 12 * 3 * (th ? NPR : 4) * NV, 60, [=](uint64_t i, Case& c) { int k, p, v; Scn s = get(i, k, p, v); meshCase(s, k, p, v, c); },
                  [=](uint64_t i) { int k, p, v; Scn s = get(i, k, p, v); return num(p) + " decimals, " + variantName(v) + (k == 0 ? ", Voronoi " : k == 1 ? ", conforming " : ", constrained ") + s.text(); }); }
        e.add("region files, curated domains", cur->size() * 12 * 4, 20, [=](uint64_t i, Case& c) { uint64_t r = i / 4; regionFile(holed(r), PR[i % 4], c); }, [=](uint64_t i) { uint64_t r = i / 4; return num(PR[i % 4]) + " decimals, " + holed(r).text(); });
        {   auto get = [=](uint64_t i) { Dec d(i); int a = d.take(5), sd = d.take(3), h = d.take(2); Scn s; auto& p = (*polys)[d.take(polys->size())]; for (auto& x : p) s.outer.push_back(g::apply(AFF[a], 10.0 * x)); if (h) for (V o : gridSeeds(s.outer, 17, 13)) if (g::where(s.outer, o, 2.2 * AFF[a].sx) > 0) { HoleSpec q; q.circle = true; q.c = o; q.r = 1.5 * AFF[a].sx; s.holes.push_back(q); break; } s.seeds = admissible(s, sd == 0 ? g::Poly() : sd == 1 ? gridSeeds(s.outer, 3, 3) : irregularSeeds(s.outer, 11, 1), 1e-3 * AFF[a].sx); return s; };
            e.add("region files, lattice polygons", polys->size() * 30, 200, [=](uint64_t i, Case& c) { regionFile(get(i), 6, c); }, [=](uint64_t i) { return get(i).text(); }); }
        {   // seed files: every sequence of up to 3 points from a pool (inside, on the boundary, outside), in every number format, spacing and ending
            static const V pool[] = {{2, 3}, {0, 4}, {10, 10}, {-1, 5}, {7.125, 0.5}, {5, 5}, {12, 12}, {0.001, 9.5}}; int NPool = 8, L = th ? 3 : 2; uint64_t seq = 0, k = 1; std::vector<uint64_t> base; for (int n = 0; n <= L; n++) { base.push_back(seq); seq += k; k *= NPool; }
            static const char* sep[] = {" ", "\t", "   "}; static const char* end[] = {"\n", "\r\n", " \n"};
            auto dec = [=](uint64_t i, int& f, int& sp, int& en, int& last, int& pre) { Dec d(i); f = d.take(5); sp = d.take(3); en = d.take(3); last = d.take(3); pre = d.take(3); uint64_t r = d.i; int n = L; while (r < base[n]) n--; r -= base[n]; g::Poly s; for (int j = 0; j < n; j++) { s.push_back(pool[r % NPool]); r /= NPool; } return s; };
            auto text = [=](const g::Poly& s, int f, int sp, int en, int last) { std::string t = num(s.size()) + (s.empty() && last == 1 ? "" : end[en]); char b[64]; for (size_t j = 0; j < s.size(); j++) { t += numFmt(f, s[j].x, b); t += sep[sp]; t += numFmt(f, s[j].y, b); if (j + 1 < s.size() || last != 1) t += end[en]; } if (last == 2) t += "\n"; return t; };
            e.add("seed files", seq * 5 * 27 * 3, 2000, [=](uint64_t i, Case& c) {
                int f, sp, en, last, pre; g::Poly s = dec(i, f, sp, en, last, pre); spit("seeds.txt", text(s, f, sp, en, last));
                Pts o{Point(0, 0), Point(10, 0), Point(10, 10), Point(0, 10)}; Region r(o); g::Poly want; if (pre) { Pts q{Point(1, 1), Point(9, 9)}; r.addSeedPoints(q); want = {{1, 1}, {9, 9}}; if (pre == 2) { r.addHole(CircularHole(Point(5, 5), 1)); } c.op(); }
                for (auto& x : s) { if (x.x < 0 || x.x > 10 || x.y < 0 || x.y > 10) continue; if (pre == 2 && g::dist(x, {5, 5}) < 1) continue; want.push_back(x); }
                r.addSeedsFromFile("seeds.txt"); c.op(); unlink((home() + "seeds.txt").c_str());
                g::Poly got = vs(r.getSeedPoints()); if (got != want) { c.fail("seeds-read", g::str(got) + " instead of " + g::str(want)); return; }
                uint64_t h = 9; for (auto& x : got) h = hv(h, x); c.state(mc::mix(h, i));
            }, [=](uint64_t i) { int f, sp, en, last, pre; g::Poly s = dec(i, f, sp, en, last, pre); return "file " + text(s, f, sp, en, last) + (pre ? " into a region that has seeds" : ""); }); }
        {   // files that do not exist
            static const char* nm[] = {"", "no-such-file", "no/such/file", "..", "seeds.txt.", "a b"};
            e.add("missing files", 6 * 3, 1, [=](uint64_t i, Case& c) {
                Dec d(i); std::string f = nm[d.take(6)]; int k = d.take(3); if (f == "" || f == "..") f += "/nothing-here"; spit("seeds.txt", "1\n1 1\n");
                Pts o{Point(0, 0), Point(10, 0), Point(10, 10)}; Region r(o); Pts q{Point(6, 1)}; r.addSeedPoints(q); std::string before = dumpRegion(r); bool thrown = false; Mesh<Polygon> m; Mesh<Triangle> t; c.op(3);
                try { if (k == 0) r.addSeedsFromFile(f); else if (k == 1) m.createFromFile(f, 0); else t.createFromFile(f, 1); } catch (std::exception&) { thrown = true; }
                if (!thrown) { c.fail("missing-file", "'" + f + "' was read without an exception"); return; }
                if (dumpRegion(r) != before || m.getPoints().size() || m.getPolygons().size() || t.getPoints().size() || t.getPolygons().size()) { c.fail("missing-file-changes", f); return; }
                c.state(mc::mix(10, i));
            }, [=](uint64_t i) { Dec d(i); std::string f = nm[d.take(6)]; return "file '" + f + "' reader " + num(d.take(3)); }); }
        {   // files that end before everything they announce: every cut of every file
            auto texts = std::make_shared<std::vector<std::pair<int, std::string>>>();      // 0 seeds, 1 Voronoi, 2 triangles; +4 without edges
            {   std::ostringstream o; o << "4\n1.5 2.25\n3 4\n5.125 1\n2 8.5\n"; texts->push_back({0, o.str()}); texts->push_back({0, "2\n1.5 2.25\n3 4\n"});
                std::vector<Scn> ms; for (size_t k = 0; k < polys->size(); k += (th ? 1 : 4)) { Scn q; for (auto& x : (*polys)[k]) q.outer.push_back(10.0 * x); if (k % 8) q.seeds = admissible(q, gridSeeds(q.outer, 3, 2)); ms.push_back(q); }
                DelynoiConfig::instance()->setPrecision(3);
                for (auto& q : ms) { Case c; Region r = buildRegion(q, c); Pts sd = r.getSeedPoints(); DelynoiConfig::instance()->setPrecision(3); TriangleVoronoiGenerator vg(sd, r); TriangleDelaunayGenerator dg(sd, r); Mesh<Triangle> t = dg.getConstrainedDelaunayTriangulation();
                    for (int k = 1; k <= 2; k++) { if (k == 1) vg.getMesh().printInFile("cut.txt"); else t.printInFile("cut.txt"); std::string full = slurp("cut.txt"); texts->push_back({k, full});
                        auto l = lines(full); int np = atoi(l[0].c_str()), ne = atoi(l[np + 1].c_str()); std::string bare; for (size_t i = 0; i < l.size(); i++) if ((int)i <= np || (int)i >= np + 2 + ne) bare += l[i] + "\n"; texts->push_back({k + 4, bare}); } }
                unlink((home() + "cut.txt").c_str()); DelynoiConfig::instance()->setPrecision(6); }
            auto first = std::make_shared<std::vector<uint64_t>>(); uint64_t tot = 0; for (auto& t : *texts) { first->push_back(tot); tot += t.second.size() + 1; }
            auto at = [=](uint64_t i, size_t& f, size_t& cut) { f = std::upper_bound(first->begin(), first->end(), i) - first->begin() - 1; cut = i - (*first)[f]; };
            e.add("files cut short", tot, 200, [=](uint64_t i, Case& c) {
                size_t f, cut; at(i, f, cut); int kind = (*texts)[f].first; const std::string& full = (*texts)[f].second; std::string t = full.substr(0, cut); auto la = lines(full), lb = lines(t);
                bool whole = cut + 1 >= full.size(), tail = !whole && lb.size() == la.size() && !lb.back().empty() && words(lb.back()).size() == words(la.back()).size();      // all there / all but some digits of the last number
                spit("cut.txt", t); bool thrown = false; std::string why; Mesh<Polygon> m; Mesh<Triangle> d; Pts o{Point(0, 0), Point(10, 0), Point(10, 10), Point(0, 10)}; Region r(o); Pts q{Point(6, 1)}; r.addSeedPoints(q); std::string before = dumpRegion(r); c.op(2);
                try { if (kind == 0) r.addSeedsFromFile("cut.txt"); else if (kind % 4 == 1) m.createFromFile("cut.txt", 0); else d.createFromFile("cut.txt", 0); } catch (std::exception& x) { thrown = true; why = x.what(); }
                unlink((home() + "cut.txt").c_str());
                if (whole && thrown) { c.fail("complete-file-rejected", why); return; }
                if (!whole && !tail && !thrown) { c.fail("cut-file-accepted", num(lb.size()) + " of " + num(la.size()) + " lines"); return; }
                if (kind == 0 && thrown && dumpRegion(r) != before) { c.fail("cut-file-changes-region", ""); return; }
                if (!thrown) { if (kind == 0) { if (r.getSeedPoints().size() != la.size()) c.fail("seeds-read", num(r.getSeedPoints().size())); }
                    else { int np = atoi(la[0].c_str()), at = np + 1; if (kind < 4) at += atoi(la[at].c_str()) + 1; int ne = atoi(la[at].c_str()); size_t n = kind % 4 == 1 ? m.getPolygons().size() : d.getPolygons().size(), k = kind % 4 == 1 ? m.getPoints().size() : d.getPoints().size(); if ((int)n != ne || (int)k != np) { c.fail("read-elements", num(n) + " elements, " + num(k) + " points"); return; } } }
                c.state(mc::mix(mc::mix(77, f), cut));
            }, [=](uint64_t i) { size_t f, cut; at(i, f, cut); return "file " + num(f) + " cut after " + num(cut) + " bytes: " + (*texts)[f].second.substr(0, cut); });
        }
        {   // a second file read into the same mesh: apart, or along a common side; both kinds of mesh, with and without edges
            auto some = std::make_shared<std::vector<g::Poly>>(); for (size_t k = 0; k < polys->size(); k += (th ? 1 : 5)) some->push_back((*polys)[k]); uint64_t np = some->size(), nb = std::min<uint64_t>(np, th ? 40 : 12);
            auto get = [=](uint64_t i, Scn& a, Scn& b, int& kind, int& st) { Dec d(i); kind = d.take(2); st = d.take(3); int way = d.take(4), sd = d.take(2); a.outer.clear(); for (auto& x : (*some)[d.take(np)]) a.outer.push_back(10.0 * x); auto& q = (*some)[(i * 31 + d.take(nb)) % np];
                for (auto& x : q) { V y = 10.0 * x; b.outer.push_back(way == 0 ? V{y.x + 100, y.y} : way == 1 ? V{y.x, y.y - 777.25} : way == 2 ? V{y.x + 20, y.y} : V{40 - y.x, y.y}); } if (way == 3) { b.outer.clear(); for (auto& x : a.outer) b.outer.push_back({40 - x.x, x.y}); std::reverse(b.outer.begin(), b.outer.end()); }
                if (sd) { a.seeds = admissible(a, gridSeeds(a.outer, 3, 2)); b.seeds = admissible(b, gridSeeds(b.outer, 2, 4)); } };
            e.add("a second file into the same mesh", np * nb * 2 * 3 * 4 * 2, 200, [=](uint64_t i, Case& c) {
                Scn a, b; int kind, st; get(i, a, b, kind, st); DelynoiConfig::instance()->setPrecision(9); M ma, mb; Mesh<Polygon> pv; Mesh<Triangle> pt;
                auto write = [&](const Scn& s, const char* f, M& m) { Region r = buildRegion(s, c); Pts sd = r.getSeedPoints(); DelynoiConfig::instance()->setPrecision(9); if (kind == 0) { TriangleVoronoiGenerator g(sd, r); m = readMesh(g.getMesh()); g.getMesh().printInFile(f); } else { TriangleDelaunayGenerator g(sd, r); Mesh<Triangle> t = g.getConstrainedDelaunayTriangulation(); m = readMesh(t); t.printInFile(f); }
                    if (st) { std::string w; std::ostringstream o; o << std::setprecision(17) << m.pts.size() << "\n"; for (auto& p : m.pts) o << p.x << " " << p.y << "\n"; o << m.cells.size() << "\n"; for (auto& k : m.cells) { o << k.size(); for (int x : k) o << " " << x + st - 1; o << "\n"; } spit(f, o.str()); } c.op(2); };
                write(a, "a.txt", ma); write(b, "b.txt", mb); int start = st ? st - 1 : 0; M r; bool ok;
                if (kind == 0) { pv.createFromFile("a.txt", start); pv.createFromFile("b.txt", start); } else { pt.createFromFile("a.txt", start); pt.createFromFile("b.txt", start); }
                c.op(2); unlink((home() + "a.txt").c_str()); unlink((home() + "b.txt").c_str()); r = kind == 0 ? readMesh(pv) : readMesh(pt);
                if (r.cells.size() != ma.cells.size() + mb.cells.size()) { c.fail("second-file-elements", num(r.cells.size()) + " instead of " + num(ma.cells.size() + mb.cells.size())); return; }
                for (size_t k = 0; k < r.cells.size(); k++) { bool f = k < ma.cells.size(); M& m = f ? ma : mb; auto& w = m.cells[f ? k : k - ma.cells.size()]; if (w.size() != r.cells[k].size()) { c.fail("second-file-elements", "element " + num(k)); return; }
                    for (size_t j = 0; j < w.size(); j++) if (r.cells[k][j] < 0 || r.cells[k][j] >= (int)r.pts.size() || g::dist(r.pts[r.cells[k][j]], m.pts[w[j]]) > 3e-5) { c.fail("second-file-elements", "corner " + num(j) + " of element " + num(k)); return; } }
                ok = kind == 0 ? checkAdjacency(pv, c, "mesh read from two files", r.pts.size() < 30) : checkAdjacency(pt, c, "mesh read from two files", r.pts.size() < 30); if (!ok) return;
                c.state(mc::mix(hashMesh(r), i % 24));
            }, [=](uint64_t i) { Scn a, b; int k, st; get(i, a, b, k, st); return std::string(k ? "triangles of " : "cells of ") + a.text() + ", then of " + b.text() + (st ? ", without edges, from " + num(st - 1) : std::string()); });
        }
        {   // large files
            static const int N[] = {9, 20, 33, 50, 80, 110}; int nn = th ? 6 : 5; static const int PV[] = {0, 1, 4, 5};
            auto get = [=](uint64_t i, int& kind, int& v) { Dec d(i); kind = d.take(3); v = PV[d.take(4)]; int sh = d.take(2), n = N[d.take(nn)]; Scn s; s.outer = sh ? g::bigPoly(6, n + 20) : g::Poly{{0, 0}, {100, 0}, {100, 100}, {0, 100}}; s.seeds = admissible(s, sh ? irregularSeeds(s.outer, n * n / 2, n) : gridSeeds(s.outer, n, n)); return s; };
            e.add("large meshes", 3 * 4 * 2 * nn, 1, [=](uint64_t i, Case& c) { int k, v; Scn s = get(i, k, v); meshCase(s, k, 7, v, c); }, [=](uint64_t i) { int k, v; Scn s = get(i, k, v); return "kind " + num(k) + ", " + variantName(v) + ", " + num(s.outer.size()) + " corners, " + num(s.seeds.size()) + " seeds"; });
            static const int SN[] = {10, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 500, 999, 1000, 1001, 1024, 4096, 5000, 10000};
            e.add("large seed files", 20 * 3 * 5, 2, [=](uint64_t i, Case& c) {
                Dec d(i); int n = SN[d.take(20)], out = d.take(3), f = d.take(5); std::string t = num(n) + "\n"; char b[64]; g::Poly want; Pts o{Point(0, 0), Point(100, 0), Point(100, 100), Point(0, 100)}; Region r(o);
                for (int k = 0; k < n; k++) { V x{std::fmod(7 + k * 61.8033, 99.0) + 0.5, std::fmod(3 + k * 75.4877, 99.0) + 0.5}; if (out && k % (out == 1 ? 7 : 2) == 1) x.x += 200; x.x = std::round(x.x * 1000) / 1000; x.y = std::round(x.y * 1000) / 1000; t += numFmt(f, x.x, b); double xx = atof(b); t += " "; t += numFmt(f, x.y, b); double yy = atof(b); t += "\n"; if (xx < 100) want.push_back({xx, yy}); }
                spit("seeds.txt", t); r.addSeedsFromFile("seeds.txt"); c.op(); if (i % 2) { r.addSeedsFromFile("seeds.txt"); g::Poly w = want; want.insert(want.end(), w.begin(), w.end()); } unlink((home() + "seeds.txt").c_str()); g::Poly got = vs(r.getSeedPoints());
                if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++; c.fail("seeds-read", num(got.size()) + " instead of " + num(want.size()) + ", different at " + num(k)); return; } c.state(mc::mix(n, i));
            }, [=](uint64_t i) { Dec d(i); return num(SN[d.take(20)]) + " seeds"; });
        }
        {   // number formatting and splitting used by the readers and writers
            static const double X[] = {0, 1, -1, 0.5, 1.0 / 3, -2.0 / 3, 1234567.890625, 1e-7, -1e-12, 9.999999, 99999.5, 1e15, 0.1};
            e.add("number formatting", 13 * 18, 10, [](uint64_t i, Case& c) {
                Dec d(i); double x = X[d.take(13)]; int p = d.take(18); std::string s = utilities::toStringWithPrecision(x, p); c.op(); char b[400]; snprintf(b, 400, "%.*f", p, x); if (s != b) { c.fail("toStringWithPrecision", s + " instead of " + b); return; }
                c.state(mc::hash_str(s));
            }, [](uint64_t i) { Dec d(i); double x = X[d.take(13)]; return num(x) + " with " + num(d.take(18)) + " decimals"; });
            static const char* W[] = {"1", "-2.5", "abc", "0"}; static const char* SP[] = {" ", "\t", "  \t ", "\r"};
            e.add("splitting", 6 * 256 * 64, 2000, [](uint64_t i, Case& c) {
                Dec d(i); int n = d.take(4), lead = d.take(2), trail = d.take(2); if (n > 3) return; std::vector<std::string> want; std::string t = lead ? " " : ""; for (int k = 0; k < n; k++) { if (k) t += SP[d.take(4)]; want.push_back(W[d.take(4)]); t += want.back(); } if (trail) t += "\t";
                auto got = utilities::splitBySpaces(t); c.op(); if (got != want) { c.fail("splitBySpaces", "'" + t + "' into " + num(got.size())); return; } c.state(mc::hash_str(t));
            }, [](uint64_t i) { return "line " + num(i); });
        }
    });
}
