// T02: constrained Delaunay mesh, with and without restricted segments.
#include "common.hpp"
static std::string segText(const Segs& s) { std::string r; for (auto& x : s) r += " " + g::str(x.first) + "-" + g::str(x.second); return s.empty() ? "" : " restricted" + r; }

static void check(const Scn& s, const Segs& rs, Case& c, bool exactInts = false) {
    Region r = buildScn(s, c);
    Pts seeds = r.getSeedPoints();
    if (exactInts && seeds.size() != s.seeds.size()) { c.fail("seed-lost", "the region dropped a seed that lies inside"); return; }
    TriangleDelaunayGenerator dg(seeds, r);
    std::vector<PointSegment> ps; for (auto& x : rs) ps.push_back(PointSegment(Point(x.first.x, x.first.y), Point(x.second.x, x.second.y)));
    Mesh<Triangle> mesh = rs.empty() ? dg.getConstrainedDelaunayTriangulation() : dg.getConstrainedDelaunayTriangulation(ps); c.op();
    M t = readMesh(mesh);
    c.trivial = t.cells.size() < 2; c.state(hashMesh(t));
    if (!indicesOk(t, c)) return;
    for (auto& k : t.cells) if (k.size() != 3) { c.fail("not-a-triangle", "element with " + num(k.size()) + " corners"); return; }
    g::Poly want = corners(r), extra; for (auto& p : vs(seeds)) want.push_back(p);
    if (!checkVertices(t, want, extra, c, "constrained mesh")) return;
    if (!extra.empty()) { c.fail("extra-vertex", "vertex " + g::str(extra[0]) + " was neither given as a seed nor is it a corner"); return; }
    g::Domain d = s.domain(); double L = 0; for (auto& p : s.outer) L = std::max(L, g::dist(p, s.outer[0]));
    double eps = (s.holes.empty() ? 1e-7 : 1e-5) * L;
    if (!checkTiling(t, d, eps, c)) return;
    // every segment is a chain of mesh edges
    std::set<std::pair<int, int>> ed;
    for (auto& k : t.cells) for (int j = 0; j < 3; j++) { ed.insert({k[j], k[(j + 1) % 3]}); ed.insert({k[(j + 1) % 3], k[j]}); }
    Segs all = rs;
    g::Poly rp = corners(r); std::vector<IndexSegment> is; r.getSegments(is);
    for (auto& x : is) all.push_back({rp.at(x.getFirst()), rp.at(x.getSecond())});
    double tol = 1e-9 * L;
    auto onSeg = [&](V a, V b, V p) { return exactInts ? (g::orient(a, b, p) == 0 && g::between(a, b, p)) : g::segDist(p, a, b) <= tol; };
    std::set<int> used; for (auto& k : t.cells) used.insert(k.begin(), k.end());
    for (auto& x : all) {
        std::vector<std::pair<double, int>> on;
        for (int k : used) if (onSeg(x.first, x.second, t.pts[k])) on.push_back({g::dot(t.pts[k] - x.first, x.second - x.first), k});
        std::sort(on.begin(), on.end());
        for (size_t i = 0; i + 1 < on.size(); i++) if (!ed.count({on[i].second, on[i + 1].second})) {
            c.fail("segment-not-kept", "segment " + g::str(x.first) + "-" + g::str(x.second) + " is interrupted between " + g::str(t.pts[on[i].second]) + " and " + g::str(t.pts[on[i + 1].second])); return; }
    }
    checkLocalDelaunay(t, c, "constrained mesh", [&](V a, V b) {
        for (auto& x : all) if (onSeg(x.first, x.second, a) && onSeg(x.first, x.second, b)) return true;
        return false;
    }, exactInts);
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        bool th = e.thorough();
        e.rule = "one execution = generate one constrained Delaunay mesh; non-trivial when it has at least 2 triangles";
        for (auto& sp : meshSpaces(th)) {
            auto get = sp.get;
            e.add(sp.name, sp.n, sp.chunk, [get](uint64_t i, Case& c) { check(get(i), {}, c); }, [get](uint64_t i) { return get(i).text(); });
        }
        {   // restricted segments: every polygon of the 3x3 lattice (corners at even half-steps) x two seeds x every set of one or
            // two segments between known points that stay inside and do not cross
            auto polys = std::make_shared<std::vector<g::Poly>>(g::uptoSymmetry(g::latticePolys(3, 3, 3, th ? 9 : 7, true)));
            struct Cfg { Scn s; Segs r; };
            auto cs = std::make_shared<std::vector<Cfg>>();
            for (auto& p : *polys) {
                Scn s; for (auto& v : p) s.outer.push_back({10 * v.x, 10 * v.y});
                g::Domain d = s.domain();
                g::Poly in; for (int a = 0; a < 25; a++) { V q{5.0 * (a / 5), 5.0 * (a % 5)}; if (d.where(q, 0) >= 0 && std::find(s.outer.begin(), s.outer.end(), q) == s.outer.end()) in.push_back(q); }
                for (size_t a = 0; a < in.size(); a++) for (size_t b = a; b < in.size(); b++) {
                    Scn t = s; t.seeds = {in[a]}; if (b != a) t.seeds.push_back(in[b]);
                    g::Poly pts = t.outer; for (auto& q : t.seeds) pts.push_back(q);
                    Segs cand;
                    for (size_t i = 0; i < pts.size(); i++) for (size_t j = i + 1; j < pts.size(); j++) {
                        bool in2 = true;
                        for (double f = 1.0 / 16; f < 1 && in2; f += 1.0 / 16) if (d.where(pts[i] + f * (pts[j] - pts[i]), 1e-9) < 0) in2 = false;
                        for (size_t k = 0; k < t.outer.size() && in2; k++) if (g::properCross(pts[i], pts[j], t.outer[k], t.outer[(k + 1) % t.outer.size()], 0)) in2 = false;
                        if (in2) cand.push_back({pts[i], pts[j]});
                    }
                    for (size_t i = 0; i < cand.size(); i++) {
                        cs->push_back({t, {cand[i]}});
                        for (size_t j = i + 1; j < cand.size(); j++) {
                            if ((th || (i + j + a + b) % 4 == 0) && !g::properCross(cand[i].first, cand[i].second, cand[j].first, cand[j].second, 0)) {
                                bool ok = true;    // they may share a given point, but not meet anywhere else
                                V &a1 = cand[i].first, &b1 = cand[i].second, &a2 = cand[j].first, &b2 = cand[j].second;
                                if (g::segTouch(a1, b1, a2, b2)) { ok = false; for (auto& q : pts) if (g::segDist(q, a1, b1) < 1e-9 && g::segDist(q, a2, b2) < 1e-9) ok = true; }
                                if (ok) cs->push_back({t, {cand[i], cand[j]}});
                            }
                        }
                    }
                    if (!th && cs->size() > 400000) break;
                }
            }
            e.add("restricted segments in lattice polygons", cs->size(), 3000, [cs](uint64_t i, Case& c) { check((*cs)[i].s, (*cs)[i].r, c); },
                  [cs](uint64_t i) { return (*cs)[i].s.text() + segText((*cs)[i].r); });
        }
        {   // a restricted segment against the shorter diagonal of four seeds, at every scale, in every order of the seeds
            static const double SC2[] = {0.02, 0.1, 0.5, 1, 3, 12}, RA[] = {0.02, 0.06, 0.15, 0.3, 0.5, 0.9}; int nr = th ? 24 : 8;
            auto get = [=](uint64_t i, Segs& r) { Dec d(i); int pm = d.take(24), how = d.take(3); double L = SC2[d.take(6)], h = RA[d.take(6)], a = 2 * M_PI * (d.take(nr) + 0.13) / nr; bool holes = d.take(2); Scn s; s.outer = {{0, 0}, {40, 0}, {40, 40}, {0, 40}}; if (2 * L * h < 2e-3) return s;
                V o{19, 21}, u{L * std::cos(a), L * std::sin(a)}, w{-h * u.y, h * u.x}; g::Poly q{o - u, o + u, o + w, o - w}, p; std::vector<int> ix{0, 1, 2, 3}; for (int k = 0; k < pm; k++) std::next_permutation(ix.begin(), ix.end()); for (int k : ix) p.push_back(q[k]); s.seeds = p;
                if (holes) { HoleSpec x; x.poly = {{1, 1}, {4, 1}, {3, 5}}; s.holes = {x}; x.poly = {{33, 34}, {38, 35}, {36, 38}, {34, 38}}; s.holes.push_back(x); }
                if (how == 0) r = {{q[0], q[1]}}; else if (how == 1) r = {{q[1], q[0]}}; else r = {{q[0], q[2]}, {q[1], q[0]}, {q[2], q[1]}}; return s; };
            e.add("four seeds and a restricted diagonal", 24ull * 3 * 36 * nr * 2, 300, [=](uint64_t i, Case& c) { Segs r; Scn s = get(i, r); if (r.empty()) { c.trivial = true; return; } check(s, r, c); }, [=](uint64_t i) { Segs r; Scn s = get(i, r); return s.text() + segText(r); });
        }
        {   // restricted segments in domains with holes, in every placement: each clear segment alone, each with the next one, all that do not cross
            auto cur = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(curated());
            struct Cfg { Scn s; Segs r; }; auto cs = std::make_shared<std::vector<Cfg>>(); size_t most = th ? 60 : 14;
            for (size_t k = 0; k < cur->size(); k++) for (int hole = 0; hole < 4; hole++) for (int ph = 0; ph < (th ? 6 : 2); ph++) {
                if (hole && k != 0 && k != 1 && k != 3) continue;
                Scn s; s.outer = (*cur)[k].second; auto add = [&](const g::Poly& p) { HoleSpec h; h.poly = p; s.holes.push_back(h); };
                if (hole & 1) add(k == 1 ? g::Poly{{14, 13}, {17, 14}, {15, 17}} : g::Poly{{5, 3}, {7, 3.5}, {6, 5}}); if (hole & 2) { HoleSpec h; h.circle = true; h.c = k == 1 ? V{4, 15} : V{4.5, 1.7}; h.r = k == 1 ? 2 : 0.9; s.holes.push_back(h); }
                s.seeds = admissible(s, ph % 2 ? irregularSeeds(s.outer, 12 + 4 * ph, ph + 3) : gridSeeds(s.outer, 6 + ph, 5), 0.02); Segs all = clearSegs(s, s.seeds, s.outer, 4000), some; for (size_t j = 0; j < all.size(); j += 1 + all.size() / most) some.push_back(all[j]);
                auto cross = [](const std::pair<V, V>& a, const std::pair<V, V>& b) { if (a.first == b.first || a.first == b.second || a.second == b.first || a.second == b.second) return false; return g::segSegDist(a.first, a.second, b.first, b.second) < 1e-9; };
                Segs greedy; for (auto& x : some) { bool ok = true; for (auto& y : greedy) ok = ok && !cross(x, y); if (ok) greedy.push_back(x); }
                for (size_t a = 0; a < some.size(); a++) { cs->push_back({s, {some[a]}}); size_t b = (a + 1) % some.size(); if (b != a && !cross(some[a], some[b])) cs->push_back({s, {some[b], some[a]}}); }
                if (greedy.size() > 2) { cs->push_back({s, greedy}); std::reverse(greedy.begin(), greedy.end()); cs->push_back({s, greedy}); }
            }
            auto get = [=](uint64_t i, Segs& r) { Dec d(i); auto& A = AFF[d.take(5)]; auto& f = (*cs)[d.take(cs->size())]; Scn s = f.s; s.outer = g::apply(A, s.outer); s.seeds = g::apply(A, s.seeds); for (auto& h : s.holes) { h.poly = g::apply(A, h.poly); h.c = g::apply(A, h.c); h.r *= A.sx; } for (auto& x : f.r) r.push_back({g::apply(A, x.first), g::apply(A, x.second)}); s.seeds = admissible(s, s.seeds, 1e-3 * A.sx); return s; };
            // (circles keep the direction of their corners, so their turned copies need not be clear of the segments)
            e.add("restricted segments in domains with holes", cs->size() * 5, 60, [=](uint64_t i, Case& c) { Segs r; Scn s = get(i, r); if (i % 5 && !s.holes.empty() && s.holes.back().circle) { c.trivial = true; return; } check(s, r, c); }, [=](uint64_t i) { Segs r; Scn s = get(i, r); return s.text() + segText(r); });
        }
        {   // many restricted segments at once
            static const int N[] = {5, 8, 12, 18, 24};
            auto get = [=](uint64_t i, Segs& r) { Dec d(i); int n = N[d.take(th ? 5 : 4)], how = d.take(4), ord = d.take(3), hole = d.take(2), jit = d.take(3); Scn s; double L = 4.0 * (n + 1); s.outer = {{0, 0}, {L, 0}, {L, L}, {0, L}}; g::Poly p;
                for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { int k = a * n + b; p.push_back({4.0 * (a + 1) + (jit ? 0.6 * jit * std::sin(k * 12.9898) : 0), 4.0 * (b + 1) + (jit ? 0.6 * jit * std::cos(k * 78.233) : 0)}); }
                auto at = [&](int a, int b) { return p[a * n + b]; }; s.seeds = p;
                for (int a = 0; a + 1 < n; a++) for (int b = 0; b + 1 < n; b++) { if (hole && a == n / 2 && b == n / 2) continue; if (how == 0) r.push_back({at(a, b), at(a + 1, b + 1)}); else if (how == 1) { if (a % 2) r.push_back({at(a + 1, b), at(a, b + 1)}); else r.push_back({at(a, b), at(a + 1, b + 1)}); } else if (how == 2) { if (b % 2 == 0) r.push_back({at(a + 1, b + 1), at(a, b)}); } else if ((a + b) % 3 == 0) { r.push_back({at(a, b), at(a + 1, b)}); r.push_back({at(a, b), at(a, b + 1)}); r.push_back({at(a + 1, b), at(a, b + 1)}); } }
                if (hole) { HoleSpec h; V o = 0.25 * (at(n / 2, n / 2) + at(n / 2 + (n / 2 + 1 < n), n / 2) + at(n / 2, n / 2 + (n / 2 + 1 < n)) + at(n / 2 + (n / 2 + 1 < n), n / 2 + (n / 2 + 1 < n))); h.poly = {o + V{-0.3, -0.3}, o + V{0.35, -0.2}, o + V{0, 0.4}}; s.holes.push_back(h); }
                if (ord == 1) std::reverse(r.begin(), r.end()); if (ord == 2) for (size_t k = 0; k < r.size(); k++) std::swap(r[k], r[(k * 7919) % r.size()]); return s; };
            e.add("many restricted segments", (th ? 5 : 4) * 4 * 3 * 2 * 3, 2, [=](uint64_t i, Case& c) { Segs r; Scn s = get(i, r); check(s, r, c); }, [=](uint64_t i) { Segs r; Scn s = get(i, r); return num(s.seeds.size()) + " seeds, " + num(r.size()) + " restricted segments, case " + num(i); });
        }
        {   // restricted segments forcing long cavities: a fan of seeds on both sides of a segment, all subsets, both directions
            int n = th ? 12 : 9;
            e.add("segments cutting through seed clouds", (uint64_t)(1 << n) * 8, 200, [n](uint64_t i, Case& c) {
                mc::Dec d(i); int var = d.take(8), mask = d.take(1 << n); Scn s; s.outer = {{0, 0}, {40, 0}, {40, 40}, {0, 40}};
                V a{3, 19}, b{37, 21.5}; if (var & 4) { a = {19.5, 2}; b = {21, 38}; }
                s.seeds = {a, b};
                for (int k = 0; k < n; k++) if (mask >> k & 1) {
                    double f = (k + 1.0) / (n + 1); V m = a + f * (b - a); double h = (k % 2 ? 1 : -1) * (0.3 + ((k * 7) % 5) * (var & 2 ? 0.05 : 0.9));
                    V nrm{-(b - a).y, (b - a).x}; nrm = (1 / g::dist(a, b)) * nrm; s.seeds.push_back(m + h * nrm);
                }
                Segs r{{a, b}}; if (var & 1) std::swap(r[0].first, r[0].second);
                check(s, r, c);
            }, [n](uint64_t i) { return "mask/variant " + num(i); });
        }
        {   // nearly degenerate integer coordinates: a cocircular/collinear pattern with every perturbation by one unit in 2^26
            static const V off[5] = {{0, 0}, {1, 0}, {0, 1}, {-1, 0}, {0, -1}};
            struct Pat { g::Poly p; };
            static std::vector<g::Poly> pat;
            double U = 1 << 22;
            pat.clear();
            pat.push_back({{4 * U, 4 * U}, {8 * U, 4 * U}, {8 * U, 8 * U}, {4 * U, 8 * U}});                     // square
            pat.push_back({{6 * U, 8 * U}, {3 * U, 4 * U}, {10 * U, 3 * U}, {11 * U, 4 * U}});                    // on a circle of radius 5U around (6,3)... and (7,4)
            pat.push_back({{2 * U, 3 * U}, {5 * U, 5 * U}, {8 * U, 7 * U}, {11 * U, 9 * U}});                     // collinear
            pat.push_back({{12 * U, 7 * U}, {7 * U, 12 * U}, {2 * U, 7 * U}, {7 * U, 2 * U}});                    // circle around (7,7)
            pat.push_back({{10 * U, 11 * U}, {11 * U, 10 * U}, {3 * U, 4 * U}, {4 * U, 3 * U}});                  // circle around (7,7)
            pat.push_back({{3, 1}, {3 * U + 3, U + 1}, {6 * U + 3, 2 * U + 1}, {9 * U + 3, 3 * U + 1}});
            int K = th ? 4 : 3;    // perturbed points (the others stay)
            uint64_t per = th ? 625 : 125;
            static std::vector<g::Poly> outs; outs.clear();
            outs.push_back({{0, 0}, {16 * U, 0}, {16 * U, 16 * U}, {0, 16 * U}});
            outs.push_back({{-U, -3 * U}, {32 * U, 0}, {-3, 31 * U}});
            e.add("nearly degenerate integer coordinates", pat.size() * outs.size() * per * 3, 400, [K](uint64_t i, Case& c) {
                mc::Dec d(i); Scn s; s.outer = outs[d.take(outs.size())]; int m = d.take(3); auto p = pat[d.take(pat.size())];
                for (int k = 0; k < K; k++) { V o = off[d.take(5)]; p[k].x += o.x; p[k].y += o.y; }
                if (m == 2) p.push_back({7.0 * (1 << 22), 7.0 * (1 << 22)});      // a center
                if (m == 1) std::reverse(p.begin(), p.end());
                s.seeds = p; check(s, {}, c, true);
            }, [K](uint64_t i) {
                mc::Dec d(i); int o = d.take(outs.size()), m = d.take(3), q = d.take(pat.size()); std::string t = "outline " + num(o) + " order " + num(m) + " pattern " + num(q) + " offsets";
                for (int k = 0; k < K; k++) t += " " + num(d.take(5)); return t; });
        }
        {   // every k-subset of the 4x4 lattice as seeds of a big square: all cocircular and collinear coincidences, exactly decided
            auto sets = std::make_shared<std::vector<int>>();
            int maxk = th ? 16 : 6;
            for (int m = 1; m < (1 << 16); m++) if (__builtin_popcount(m) <= maxk) sets->push_back(m);
            e.add("subsets of the 4x4 lattice", sets->size(), 400, [sets](uint64_t i, Case& c) {
                int m = (*sets)[i]; Scn s; s.outer = {{-5, -6}, {9, -5}, {10, 8}, {-4, 9}};
                for (int k = 0; k < 16; k++) if (m >> k & 1) s.seeds.push_back({(double)(k / 4), (double)(k % 4)});
                check(s, {}, c, true);
            }, [sets](uint64_t i) { return "mask " + num((*sets)[i]); });
        }
    });
}
