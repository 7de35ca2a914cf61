// R03: point location in polygons, regions and holes against exact integer geometry.
#include "common.hpp"

static int exactWhere(const g::Poly& q, V p) {     // 1 inside, 0 on the border, -1 outside; exact for (half) integers
    for (size_t i = 0; i < q.size(); i++) { V a = q[i], b = q[(i + 1) % q.size()]; if (g::orient(a, b, p) == 0 && g::between(a, b, p)) return 0; }
    return g::insideRaw(q, p) ? 1 : -1;
}
struct Shape { g::Poly q; g::Poly placed; std::vector<V> pts, ppts; };

// every query on every point for one way of giving the outline
static void check(const g::Poly& q, const g::Poly& placed, const std::vector<V>& pts, const std::vector<V>& pp, Case& c, bool fancyIndexes, const std::vector<int>* known = nullptr) {
    Pts P0 = P(placed);
    Polygon a(P0); Region r(P0); PolygonalHole ph(P0); Hole h(ph); c.op(4);
    // the same polygon by indexes into a longer list, in another order
    Pts all; std::vector<int> ix(placed.size());
    for (int k = 0; k < 3; k++) all.push_back(Point(placed[0].x + 0.31 * (k + 1), placed[1].y - 0.17 * k));
    for (size_t k = placed.size(); k-- > 0;) { ix[k] = all.size(); all.push_back(P0[k]); all.push_back(Point(-7.5 - k, 3)); }
    Polygon b(ix, all);
    std::vector<std::tuple<size_t, int, int>> edges;     // the edge first named for every point of the border
    for (size_t k = 0; k < pts.size(); k++) {
        int w = known ? (*known)[k] : exactWhere(q, pts[k]); Point x(pp[k].x, pp[k].y);
        const char* what = w > 0 ? "inside" : w == 0 ? "on the border" : "outside";
        auto bad = [&](const char* f, bool got) { c.fail(f, g::str(pp[k]) + " lies " + what + " of " + (known ? num(q.size()) + " corners" : g::str(placed)) + " but the answer is " + (got ? "yes" : "no")); };
        bool got;
        if ((got = a.containsPoint(P0, x)) != (w >= 0)) return bad("Polygon-containsPoint", got);
        if ((got = r.containsPoint(x)) != (w >= 0)) return bad("Region-containsPoint", got);
        if ((got = h.containsPoint(x)) != (w >= 0)) return bad("Hole-containsPoint", got);
        if ((got = a.inEdges(P0, x)) != (w == 0)) return bad("Polygon-inEdges", got);
        if ((got = r.inEdges(x)) != (w == 0)) return bad("Region-inEdges", got);
        c.op(5);
        if (fancyIndexes) {
            if ((got = b.containsPoint(all, x)) != (w >= 0)) return bad("Polygon-containsPoint-indexed", got);
            if ((got = b.inEdges(all, x)) != (w == 0)) return bad("Polygon-inEdges-indexed", got);
            c.op(2);
        }
        for (int s = 0; s < (fancyIndexes ? 2 : 1); s++) {
            IndexSegment e = s ? b.containerEdge(all, x) : a.containerEdge(P0, x); c.op();
            int i = e.getFirst(), j = e.getSecond();
            if (w != 0) { if (i != -1 || j != -1) { c.fail("containerEdge", g::str(pp[k]) + " is on no edge but got " + e.getString()); return; } continue; }
            if (!s) edges.push_back({k, i, j});
            auto& id = s ? ix : a.getPoints();
            int n = q.size(), pi = -1; for (int t = 0; t < n; t++) if ((id[t] == i && id[(t + 1) % n] == j) || (id[t] == j && id[(t + 1) % n] == i)) pi = t;
            if (pi < 0) { c.fail("containerEdge", g::str(pp[k]) + ": " + e.getString() + " is no edge"); return; }
            if (known ? g::segDist(pts[k], q[pi], q[(pi + 1) % n]) > 1e-3 : g::orient(q[pi], q[(pi + 1) % n], pts[k]) != 0 || !g::between(q[pi], q[(pi + 1) % n], pts[k])) { c.fail("containerEdge", g::str(pp[k]) + ": edge " + e.getString() + " of " + (known ? num(q.size()) + " corners" : g::str(placed)) + " does not contain it"); return; }
        }
    }
    // asked again, in the other order, after everything else
    for (size_t t = edges.size(); t-- > 0;) {
        auto [k, i, j] = edges[t]; Point x(pp[k].x, pp[k].y); IndexSegment e = a.containerEdge(P0, x); c.op(2);
        if (e.getFirst() != i || e.getSecond() != j) { c.fail("containerEdge-changes", g::str(pp[k]) + " was found on edge " + num(i) + " " + num(j) + ", then on edge " + e.getString()); return; }
        if (!a.inEdges(P0, x) || !r.inEdges(x) || !r.containsPoint(x)) { c.fail("answer-changes", g::str(pp[k]) + " was found on the border, then not"); return; }
    }
}
static g::Poly variant(const g::Poly& p, int start, int dir) {
    g::Poly q = p; if (dir) std::reverse(q.begin(), q.end()); std::rotate(q.begin(), q.begin() + start % q.size(), q.end()); return q;
}
static std::vector<V> lattice(int lo, int hi, double step) { std::vector<V> r; int n = std::lround((hi - lo) / step); for (int x = 0; x <= n; x++) for (int y = 0; y <= n; y++) r.push_back({lo + x * step, lo + y * step}); return r; }
static const g::Affine PL[] = {{1, 0, 0, 0, ""}, {7.3, 0.4, 3.1, -2.7, "rotated"}, {0.13, 1.1, 100, 50, "small"}, {250, 2.0, -4000, 9000, "large"}, {1000, 0, 1e6, -2e6, "far"}, {0.05, 0, 0, 0, "tiny"}, {1, 0.4, 452000.25, 4181000.5, "geographic"}};

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one polygon given in one way, with every point of the refined lattice around it";
        bool th = e.thorough();
        auto p3 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(3, 3, 3, 9, true));
        auto l3 = std::make_shared<std::vector<V>>(lattice(-1, 3, 0.5)), l3f = std::make_shared<std::vector<V>>(lattice(-1, 3, 0.25)), l4 = std::make_shared<std::vector<V>>(lattice(-1, 4, 0.5));
        auto polyText = [](const g::Poly& q) { return "outline " + g::str(q); };
        {   // 3x3: every starting corner, both directions, with a corner repeated or not
            auto get = [=](uint64_t i) { Dec d(i); auto& p = (*p3)[d.take(p3->size())]; int dir = d.take(2), st = d.take(9), dup = d.take(10); g::Poly q;
                if (st >= (int)p.size() || dup > (int)p.size()) return q;
                q = variant(p, st, dir); if (dup) { q.insert(q.begin() + dup, q[dup - 1]); } return q; };
            e.add("3x3 polygons, every start and direction, a corner repeated", p3->size() * 180, 2000, [=](uint64_t i, Case& c) { g::Poly q = get(i); if (q.empty()) { c.trivial = true; return; } check(q, q, *l3, *l3, c, true); uint64_t h = 1; for (auto& v : q) h = hv(h, v); c.state(h); },
                [=](uint64_t i) { return polyText(get(i)); });
            e.add("3x3 polygons, fine lattice of points", p3->size() * 2, 50, [=](uint64_t i, Case& c) { Dec d(i); g::Poly q = variant((*p3)[d.take(p3->size())], 0, d.take(2)); check(q, q, *l3f, *l3f, c, true); uint64_t h = 2; for (auto& v : q) h = hv(h, v); c.state(h); },
                [=](uint64_t i) { Dec d(i); auto& p = (*p3)[d.take(p3->size())]; return polyText(variant(p, 0, d.take(2))); });
        }
        {   // placements
            int np = sizeof(PL) / sizeof(*PL);
            e.add("3x3 polygons, placements", p3->size() * 2 * np, 200, [=](uint64_t i, Case& c) { Dec d(i); auto& p = (*p3)[d.take(p3->size())]; auto& a = PL[d.take(np)]; g::Poly q = variant(p, 1, d.take(2)); std::vector<V> pp; for (auto& x : *l3) pp.push_back(g::apply(a, x));
                check(q, g::apply(a, q), *l3, pp, c, false); uint64_t h = 3; for (auto& v : g::apply(a, q)) h = hv(h, v); c.state(h); },
                [=](uint64_t i) { Dec d(i); auto& p = (*p3)[d.take(p3->size())]; auto& a = PL[d.take(np)]; return polyText(g::apply(a, variant(p, 1, d.take(2)))); });
        }
        {   // details much smaller than the sides, at every corner
            auto get = [=](uint64_t i) { Dec d(i); int how = d.take(4), st = DETAIL[d.take(4)], k = d.take(9), dir = d.take(2); auto& p = (*p3)[d.take(p3->size())]; if (k >= (int)p.size()) return g::Poly(); g::Poly q = refineCorner(p, k, st, how); return q.empty() ? q : variant(q, k, dir); };
            auto small = [](const g::Poly& q) { g::Poly r; for (auto& x : q) r.push_back((1.0 / 128) * x); return r; };
            e.add("3x3 polygons with a small detail at one corner", p3->size() * 4 * 4 * 9 * 2, 500, [=](uint64_t i, Case& c) {
                g::Poly q = get(i); if (q.empty()) { c.trivial = true; return; } Dec d(i); d.take(4); int st = DETAIL[d.take(4)], k = d.take(9); V o = 10000 * (*p3)[(d.take(2), d.take(p3->size()))][k];
                std::vector<V> pts, pp; for (int x = -3; x <= 3; x++) for (int y = -3; y <= 3; y++) pts.push_back(o + V{x * st / 2.0, y * st / 2.0}); for (auto& x : *l3) if (((int)(2 * x.x) + (int)(2 * x.y)) % 2 == 0) pts.push_back(10000 * x); for (auto& x : q) pts.push_back(x);
                for (auto& x : pts) pp.push_back((1.0 / 128) * x); check(q, small(q), pts, pp, c, false); uint64_t h = 5; for (auto& x : q) h = hv(h, x); c.state(h); },
                [=](uint64_t i) { return polyText(small(get(i))); });
        }
        {   // many corners: every corner, middle of a side and point of a lattice
            static const int N[] = {32, 33, 63, 64, 65, 100, 128, 130, 200, 256, 258, 400, 520}; int nn = 13;
            auto tx = [=](uint64_t i) { Dec d(i); int dir = d.take(2), st = d.take(2), pl = d.take(3), k = d.take(7), n = N[d.take(nn)]; return std::string(g::BIG[k]) + " of about " + num(n) + " corners, start " + num(st) + ", placement " + num(pl) + (dir ? ", clockwise" : ""); };
            e.add("outlines of many corners", 2 * 2 * 3 * 7 * nn, 3, [=](uint64_t i, Case& c) { Dec d(i); int dir = d.take(2), st = d.take(2), pl = d.take(3), k = d.take(7), n = N[d.take(nn)]; g::Poly q = g::bigPoly(k, n); n = q.size(); q = variant(q, st ? n / 3 : 0, dir); g::Poly at = g::apply(PL[pl == 2 ? 6 : pl], q);
                std::vector<V> pts, pp; std::vector<int> w; double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& v : q) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); }
                for (int j = 0; j < n; j++) { pts.push_back(q[j]); w.push_back(0); pts.push_back(g::mid(q[j], q[(j + 1) % n])); w.push_back(0); }
                auto off = [&](V x) { if (g::bndDist(q, x) < 2e-3) return; pts.push_back(x); w.push_back(g::insideRaw(q, x) ? 1 : -1); };
                for (int a = -1; a <= 17; a++) for (int b = -1; b <= 17; b++) off({x0 + (a + 0.01) / 16 * (x1 - x0), y0 + (b + 0.02) / 16 * (y1 - y0)});
                for (int j = 0; j < n; j++) { V a = q[j], b = q[(j + 1) % n]; V nr = (1 / g::dist(a, b)) * V{-(b - a).y, (b - a).x}; for (double s : {-0.05, 0.05, 0.01}) off(a + 0.4 * (b - a) + s * nr); if (j % 3 == 0) off({q[j].x + 0.37, q[j].y}); }
                for (size_t j = 0; j < pts.size(); j++) { V x = g::apply(PL[pl == 2 ? 6 : pl], pts[j]); if (w[j] == 0 && j % 2) x = g::mid(at[j / 2], at[(j / 2 + 1) % n]); pp.push_back(x); }
                check(q, at, pts, pp, c, true, &w); uint64_t h = 7; for (auto& v : at) h = hv(h, v); c.state(h); }, tx); }
        {   // answers after the outline changed: every pair of outlines, every kind of question before, every way to change
            int step = th ? 5 : 80; uint64_t n2 = p3->size() / step; static const char* how[] = {"mutate", "assign", "copy, then mutate the copy", "copy, then mutate the original"};
            auto place = [](const g::Poly& q, int k) { g::Poly r; for (auto& x : q) r.push_back(k == 0 ? x : k == 1 ? 2.0 * x + V{-1, -1} : V{x.x + 1, x.y}); return r; };
            auto get = [=](uint64_t i, g::Poly& a, g::Poly& b, int& ask, int& h) { Dec d(i); int k = d.take(3); ask = d.take(4); h = d.take(4); b = place((*p3)[d.take(p3->size())], k); a = (*p3)[(i * 7919 + step * d.take(n2)) % p3->size()]; };
            e.add("outlines replaced after questions", p3->size() * n2 * 48, 5000, [=](uint64_t i, Case& c) {
                g::Poly a, b; int ask, h; get(i, a, b, ask, h); Pts pa = P(a), pb = P(b); Region r(pa); Polygon p(pa); c.op(2);
                auto question = [&](Region& r, Polygon& p, Pts& pts) { for (auto& x : *l3) { if (((int)(2 * x.x) + (int)(2 * x.y)) % 2) continue; Point y(x.x, x.y); if (ask == 0) { r.containsPoint(y); p.containsPoint(pts, y); } else if (ask == 1) { r.inEdges(y); p.inEdges(pts, y); } else if (ask == 2) { p.containerEdge(pts, y); r.getBox(); p.getArea(pts); } else break; } };
                auto verify = [&](Region& r, Polygon& p, Pts& pts, const g::Poly& q, const char* who) { for (auto& x : *l3) { int w = exactWhere(q, x); Point y(x.x, x.y); c.op(4); if (r.containsPoint(y) != (w >= 0) || p.containsPoint(pts, y) != (w >= 0) || r.inEdges(y) != (w == 0) || p.inEdges(pts, y) != (w == 0)) { c.fail("after-change", std::string(how[h]) + ": " + who + " " + g::str(q) + " answers wrong for " + g::str(x) + " after being asked about " + g::str(a)); return false; } } return true; };
                question(r, p, pa);
                if (h == 0) { r.mutate(pb); p.mutate(pb); verify(r, p, pb, b, "the outline"); }
                else if (h == 1) { Region r2(pb); Polygon p2(pb); r = r2; p = p2; if (verify(r, p, pb, b, "the outline")) verify(r2, p2, pb, b, "the source"); }
                else { Region r2(r); Polygon p2(p); if (h == 2) { r2.mutate(pb); p2.mutate(pb); if (verify(r2, p2, pb, b, "the copy")) verify(r, p, pa, a, "the original"); } else { r.mutate(pb); p.mutate(pb); if (verify(r, p, pb, b, "the original")) verify(r2, p2, pa, a, "the copy"); } }
                uint64_t s = h; for (auto& x : a) s = hv(s, x); for (auto& x : b) s = hv(s, x); c.state(s);
            }, [=](uint64_t i) { g::Poly a, b; int ask, h; get(i, a, b, ask, h); return "outline " + g::str(a) + " asked in way " + num(ask) + ", then " + how[h] + " to " + g::str(b); });
        }
        {   // circular holes: points around every side and corner
            static const int GR[] = {3, 4, 5, 6, 8, 9, 12, 16, 31, 64}; static const double RD[] = {0.5, 1.8, 10, 250}; static const V CE[] = {{0, 0}, {3.1, -2.7}, {-4000, 9000}};
            e.add("circular holes", 10 * 4 * 3, 4, [=](uint64_t i, Case& c) {
                Dec d(i); int gr = GR[d.take(10)]; double rad = RD[d.take(4)]; V o = CE[d.take(3)]; DelynoiConfig* cf = DelynoiConfig::instance(); int keep = cf->getDiscretizationGrade(); cf->setDiscretizationGrade(gr);
                CircularHole ch(Point(o.x, o.y), rad); Hole h(ch); cf->setDiscretizationGrade(keep); c.op(2); g::Poly q = Scn::circle(o, rad, gr);
                for (int a = 0; a < gr * 8; a++) for (double f : {0.0, 0.3, 0.7, 0.85, 0.93, 0.97, 0.985, 0.993, 0.997, 1.003, 1.02, 1.2, 3.0}) {
                    double t = 2 * M_PI * a / (gr * 8) + 1e-4; V x{o.x + f * rad * std::cos(t), o.y + f * rad * std::sin(t)}; if (g::bndDist(q, x) < 1e-3 * std::min(1.0, rad)) continue;
                    bool in = g::where(q, x, 0) > 0; c.op(); if (h.containsPoint(Point(x.x, x.y)) != in || ch.containsPoint(Point(x.x, x.y)) != in) { c.fail("Hole-containsPoint", g::str(x) + (in ? " lies inside" : " lies outside") + " of the circular hole of " + num(gr) + " corners"); return; }
                }
                Pts hp = h.getPoints(); for (auto& x : hp) if (!h.containsPoint(x)) { c.fail("Hole-containsPoint", "corner " + x.getString()); return; }
                c.state(mc::mix(gr, i));
            }, [=](uint64_t i) { Dec d(i); std::string s = "grade " + num(GR[d.take(10)]) + " radius " + num(RD[d.take(4)]); return s + " center " + g::str(CE[d.take(3)]); });
        }
        {
            auto p4 = std::make_shared<std::vector<g::Poly>>(g::latticePolys(4, 4, 3, th ? 7 : 6, true));
            int ns = th ? 7 : 3;
            e.add("4x4 polygons", p4->size() * 2 * ns, 1000, [=](uint64_t i, Case& c) { Dec d(i); auto& p = (*p4)[d.take(p4->size())]; int dir = d.take(2), st = d.take(ns); if (st >= (int)p.size()) { c.trivial = true; return; }
                g::Poly q = variant(p, st, dir); check(q, q, *l4, *l4, c, false); uint64_t h = 4; for (auto& v : q) h = hv(h, v); c.state(h); },
                [=](uint64_t i) { Dec d(i); auto& p = (*p4)[d.take(p4->size())]; int dir = d.take(2), st = d.take(ns); return polyText(variant(p, st, dir)); });
        }
    });
}
