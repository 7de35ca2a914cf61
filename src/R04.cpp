// R04: self-intersecting outlines are rejected, simple ones accepted. Exact integer oracle on every sequence of lattice points.
#include "common.hpp"

enum Want { ACCEPT, REJECT, FREE };
static g::Poly collapse(const g::Poly& q) {     // immediately repeated points removed
    g::Poly r; for (auto& p : q) if (r.empty() || !(r.back() == p)) r.push_back(p);
    while (r.size() > 1 && r.back() == r[0]) r.pop_back();
    return r;
}
static Want oracle(const g::Poly& given) {
    g::Poly q = collapse(given); int n = q.size(); if (n < 3) return FREE;
    bool parallelContact = false;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        V a = q[i], b = q[(i + 1) % n], c = q[j], d = q[(j + 1) % n];
        bool par = g::cross(b - a, d - c) == 0;
        if (j == i + 1 || (i == 0 && j == n - 1)) {
            V u = j == i + 1 ? a : c, v = j == i + 1 ? b : d, w = j == i + 1 ? d : b;
            if (par && g::dot(u - v, w - v) > 0) parallelContact = true;      // a spike
            continue;
        }
        if (!g::segTouch(a, b, c, d)) continue;
        if (!par) return REJECT;
        parallelContact = true;
    }
    return parallelContact ? FREE : ACCEPT;
}
static void run(const g::Poly& lat, const g::Poly& placed, Case& c) {
    Want w = oracle(lat);
    if (w == FREE) { c.trivial = true; return; }
    uint64_t h = w; for (auto& v : placed) h = hv(h, v); c.state(h);
    auto ways = {0, 1, 2, 3, 4};
    static const char* name[] = {"Polygon", "Region", "PolygonalHole", "Polygon-mutate", "Region-mutate"};
    for (int k : ways) {
        Pts p = P(placed); bool threw = false, other = false; int sides = -1; std::string why; double area = 0;
        try {
            if (k == 0) { Polygon x(p); sides = x.numberOfSides(); area = x.signedArea(p); }
            else if (k == 1) { Region x(p); sides = x.numberOfSides(); area = g::sarea(vs(x.getRegionPoints())); }
            else if (k == 2) { PolygonalHole x(p); Hole y(x); sides = y.getPoints().size(); area = g::sarea(vs(y.getPoints())); }
            else if (k == 3) { Pts s = P(g::Poly{{0, 0}, {1, 0}, {0, 1}}); Polygon x(s); x.mutate(p); sides = x.numberOfSides(); area = x.signedArea(p); }
            else { Pts s = P(g::Poly{{0, 0}, {1, 0}, {0, 1}}); Region x(s); x.mutate(p); sides = x.numberOfSides(); area = g::sarea(vs(x.getRegionPoints())); }
        } catch (std::exception& e) { threw = true; why = e.what(); }
        catch (...) { threw = true; other = true; }
        c.op();
        if (other) { c.fail(std::string("exception-type-") + name[k], g::str(placed)); return; }
        if (threw && w == ACCEPT) { c.fail(std::string("simple-rejected-") + name[k], g::str(placed) + ": " + why); return; }
        if (!threw && w == REJECT) { c.fail(std::string("crossing-accepted-") + name[k], g::str(placed)); return; }
        if (!threw) {
            if (sides != (int)placed.size()) { c.fail(std::string("sides-") + name[k], num(sides) + " sides for " + g::str(placed)); return; }
            double want = g::sarea(placed), L = 0; for (auto& v : placed) L = std::max(L, std::max(std::fabs(v.x), std::fabs(v.y)));
            if (std::fabs(area - want) > 1e-9 * (std::fabs(want) + L * L)) { c.fail(std::string("shape-") + name[k], "area " + num(area) + " for " + g::str(placed)); return; }
        }
    }
}
static const g::Affine PL[] = {{7.3, 0.4, 3.1, -2.7, "rotated"}, {0.13, 1.1, 100, 50, "small"}, {250, 2.0, -4000, 9000, "large"}, {1000, 0.7, 1e6, -2e6, "far"}, {0.05, 0.2, 0, 0, "tiny"}, {1, 2.2, 0, 0, "turned"}, {3.3, 5.1, 17, -1, "turned further"}, {1, 0.4, 452000.25, 4181000.5, "geographic"}};

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one closed sequence of lattice points given to the five ways of making an outline; trivial when its only contacts are overlaps of parallel edges or it has no area";
        bool th = e.thorough();
        auto text = [](const g::Poly& q) { return "outline " + g::str(q); };
        // sequences of distinct points of an n x n lattice, length k
        auto distinct = [](uint64_t i, int n, int k) { Dec d(i); std::vector<int> left(n * n); for (int t = 0; t < n * n; t++) left[t] = t; g::Poly q;
            for (int t = 0; t < k; t++) { int x = d.take(left.size()); q.push_back({(double)(left[x] / n), (double)(left[x] % n)}); left.erase(left.begin() + x); } return q; };
        auto addDistinct = [&](int n, int k, const std::string& nm) { uint64_t tot = 1; for (int t = 0; t < k; t++) tot *= n * n - t;
            e.add(nm, tot, std::min<uint64_t>(4000, tot / 20 + 1), [=](uint64_t i, Case& c) { g::Poly q = distinct(i, n, k); run(q, q, c); }, [=](uint64_t i) { return text(distinct(i, n, k)); }); };
        for (int k = 3; k <= (th ? 9 : 8); k++) addDistinct(3, k, "3x3 lattice, " + num(k) + " points");
        for (int k = 3; k <= (th ? 6 : 5); k++) addDistinct(4, k, "4x4 lattice, " + num(k) + " points");
        for (int k = 3; k <= 4; k++) addDistinct(5, k, "5x5 lattice, " + num(k) + " points");
        {   // with repeated points, immediately or not
            auto seq = [](uint64_t i, int k) { Dec d(i); g::Poly q; for (int t = 0; t < k; t++) { int x = d.take(9); q.push_back({(double)(x / 3), (double)(x % 3)}); } return q; };
            for (int k = 4; k <= (th ? 7 : 6); k++) { uint64_t tot = 1; for (int t = 0; t < k; t++) tot *= 9;
                e.add("3x3 lattice, any " + num(k) + " points", tot, std::min<uint64_t>(5000, tot / 20), [=](uint64_t i, Case& c) { g::Poly q = seq(i, k); run(q, q, c); }, [=](uint64_t i) { return text(seq(i, k)); }); }
        }
        {   // placed
            int np = sizeof(PL) / sizeof(*PL);
            for (int k = 3; k <= (th ? 7 : 6); k++) { uint64_t tot = np; for (int t = 0; t < k; t++) tot *= 9 - t;
                e.add("3x3 lattice, " + num(k) + " points, placed", tot, std::min<uint64_t>(5000, tot / 20), [=](uint64_t i, Case& c) { g::Poly q = distinct(i / np, 3, k); run(q, g::apply(PL[i % np], q), c); },
                    [=](uint64_t i) { return text(g::apply(PL[i % np], distinct(i / np, 3, k))); }); }
        }
        {   // details much smaller than the sides, at every corner: also those that cross or touch
            auto p3 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(3, 3, 3, 9, true));
            auto get = [=](uint64_t i, g::Poly& at) { Dec d(i); int st = DETAIL[d.take(4)], k = d.take(9), dir = d.take(2), pl = d.take(3), far = d.take(9), kind = d.take(8); auto& p = (*p3)[d.take(p3->size())]; g::Poly q; int n = p.size(); if (k >= n || (kind < 4 && far)) return q;
                if (kind < 4) q = refineCorner(p, k, st, kind);
                else {      // one corner moved close to another one: just before it, onto it, just beyond it
                    if (far >= n || far == k) return q; for (auto& x : p) q.push_back(10000 * x); V u = p[far] - p[k]; q[k] = q[far] + (kind == 4 ? -st : kind == 5 ? 0 : st) * u; if (kind == 7) q[k] = q[far] + (st / 2) * V{-u.y, u.x}; }
                if (q.empty()) return q; std::rotate(q.begin(), q.begin() + k % q.size(), q.end()); if (dir) std::reverse(q.begin(), q.end());
                static const g::Affine A[] = {{1.0 / 128, 0, 0, 0, ""}, {1.0 / 128, 0.4, 3, -7, ""}, {1.0 / 256, 1.1, -4000, 900, ""}}; at = g::apply(A[pl], q); return q; };
            e.add("3x3 outlines with a small detail at one corner", p3->size() * 4 * 9 * 2 * 3 * 9 * 8, 20000, [=](uint64_t i, Case& c) { g::Poly at, q = get(i, at); if (q.empty()) { c.trivial = true; return; } run(q, at, c); }, [=](uint64_t i) { g::Poly at; get(i, at); return text(at); });
        }
        {   // long outlines: a comb with one corner moved onto, through or away from other edges
            e.add("long outlines with one corner moved", 40 * 21 * 21, 200, [=](uint64_t i, Case& c) { Dec d(i); int k = d.take(40); double x = (int)d.take(21) - 10, y = (int)d.take(21) - 10; g::Poly q;
                for (int t = 0; t < 10; t++) { q.push_back({20.0 - 2 * t, t % 2 ? 10.0 : 11.0}); }     // a zigzag above
                for (int t = 0; t < 10; t++) { q.push_back({2.0 * t, t % 2 ? 1.0 : 0.0}); } 
                int m = k % q.size(); if (k >= (int)q.size()) std::reverse(q.begin(), q.end()); q[m].x += x; q[m].y += y; run(q, q, c); },
                [=](uint64_t i) { return std::string("zigzag #") + num(i); });
        }
        {   // many corners: round outlines in order, with two corners exchanged, with one corner on or beyond the opposite side
            static const int NN[] = {10, 50, 99, 128, 200, 257, 400, 513, 700, 1025}; int nn = th ? 10 : 9;
            auto get = [=](uint64_t i, bool& ok) { Dec d(i); int w = d.take(6), f = d.take(8), n = NN[d.take(nn)]; g::Poly q; for (int j = 0; j < n; j++) q.push_back({std::round(1e7 * std::cos(2 * M_PI * (j + 0.25) / n)) / 1e6, std::round(1e7 * std::sin(2 * M_PI * (j + 0.25) / n)) / 1e6});
                int a = (long long)n * f / 8, b = (a + n / 2) % n; ok = w == 0 || w == 3; if (w == 1) std::swap(q[a], q[(a + 1) % n]); if (w == 2) std::swap(q[a], q[b]); if (w == 3) q[a] = 0.3 * q[b]; if (w == 4) q[a] = 1.2 * q[b]; if (w == 5) q[a] = q[b]; if (f & 1) std::reverse(q.begin(), q.end()); return q; };
            e.add("outlines of many corners", 6 * 8 * nn, 6, [=](uint64_t i, Case& c) { bool ok; g::Poly q = get(i, ok); uint64_t h = ok; for (auto& v : q) h = hv(h, v); c.state(h); static const char* name[] = {"Polygon", "Region", "PolygonalHole"};
                for (int k = 0; k < (ok && q.size() > 200 ? 2 : 3); k++) { Pts p = P(q); bool threw = false; try { if (k == 0) Polygon x(p); if (k == 1) Region x(p); if (k == 2) PolygonalHole x(p); } catch (std::exception&) { threw = true; } c.op(); if (threw == ok) { c.fail(std::string(ok ? "simple-rejected-" : "crossing-accepted-") + name[k], num(q.size()) + " corners"); return; } } },
                [=](uint64_t i) { Dec d(i); int w = d.take(6), f = d.take(8); return num(NN[d.take(nn)]) + " corners, change " + num(w) + " at " + num(f) + "/8"; });
        }
        // known defect, see known_findings.txt
        e.add("polygons given by indexes", 1, 1, [](uint64_t, Case& c) { Pts p = P(g::Poly{{0, 0}, {2, 2}, {2, 0}, {0, 2}}); std::vector<int> ix{0, 1, 2, 3}; bool threw = false; try { Polygon x(ix, p); } catch (std::exception&) { threw = true; } c.op();
            if (!threw) c.fail("crossing-accepted", "Polygon(indexes, points) accepts a bow tie"); }, [](uint64_t) { return std::string("bow tie given by indexes"); });
    });
}
