// R02: addHole against an area and membership oracle.
#include "common.hpp"

// ---- oracle ----
static g::Poly ccw(g::Poly p) { if (g::sarea(p) < 0) std::reverse(p.begin(), p.end()); return p; }
// outline minus hole for boundaries in general position that do cross: the closed loops of the remaining boundary.
// (The rest of the plane and the hole are connected to each other then, so every loop bounds one piece.)
static std::vector<g::Poly> minusHole(const g::Poly& outline, const g::Poly& hole) {
    g::Poly A = ccw(outline), B = ccw(hole); std::reverse(B.begin(), B.end());
    struct X { double ta, tb; V p; bool leaves; int posA, posB; };
    std::vector<X> xs;
    for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) {
        V a = A[i], b = A[(i + 1) % A.size()], c = B[j], d = B[(j + 1) % B.size()];
        if (!g::properCross(a, b, c, d, 0)) continue;
        double t = g::orient(c, d, a) / (g::orient(c, d, a) - g::orient(c, d, b)), u = g::orient(a, b, c) / (g::orient(a, b, c) - g::orient(a, b, d));
        xs.push_back({i + t, j + u, a + t * (b - a), g::cross(d - c, b - a) > 0, 0, 0});     // the clockwise hole lies to the right of c-d
    }
    int n = xs.size(); std::vector<int> byA(n), byB(n); for (int k = 0; k < n; k++) byA[k] = byB[k] = k;
    std::sort(byA.begin(), byA.end(), [&](int x, int y) { return xs[x].ta < xs[y].ta; }); std::sort(byB.begin(), byB.end(), [&](int x, int y) { return xs[x].tb < xs[y].tb; });
    for (int k = 0; k < n; k++) { xs[byA[k]].posA = k; xs[byB[k]].posB = k; }
    auto corners = [](const g::Poly& r, double from, double to, g::Poly& o) {      // the corners strictly between two positions, cyclically
        int m = r.size(); if (to <= from) to += m;
        for (int k = std::floor(from) + 1; k < to; k++) o.push_back(r[k % m]);
    };
    std::vector<char> used(n, 0); std::vector<g::Poly> loops;
    for (int s = 0; s < n; s++) {
        if (!xs[s].leaves || used[s]) continue;
        g::Poly l; int at = s;
        do {
            used[at] = 1; l.push_back(xs[at].p);
            int nx = byA[(xs[at].posA + 1) % n]; corners(A, xs[at].ta, xs[nx].ta, l);
            l.push_back(xs[nx].p);
            int nb = byB[(xs[nx].posB + 1) % n]; corners(B, xs[nx].tb, xs[nb].tb, l);
            at = nb;
        } while (at != s && l.size() < 20000);
        loops.push_back(l);
    }
    return loops;
}
enum Kind { INSIDE, CROSS, OUTSIDE, DOUBTFUL };
// how hole h lies to the outline; gap: how far corners must stay apart from the other boundary
static Kind kindOf(const g::Poly& o, const g::Poly& h, double gap) {
    int in = 0, out = 0, cross = 0;
    for (auto& v : h) { if (g::bndDist(o, v) < gap) return DOUBTFUL; (g::insideRaw(o, v) ? in : out)++; }
    for (size_t j = 0; j < o.size(); j++) {
        V a = o[j], b = o[(j + 1) % o.size()];
        if (g::bndDist(h, a) < gap) return DOUBTFUL;
        for (size_t i = 0; i < h.size(); i++) if (g::properCross(h[i], h[(i + 1) % h.size()], a, b, 0)) cross++;
    }
    if (cross) return CROSS;
    if (in) return INSIDE;
    return g::insideRaw(h, o[0]) ? DOUBTFUL : OUTSIDE;
}

struct Cfg { g::Poly outer; std::vector<HoleSpec> holes; };
static std::string text(const Cfg& c) { Scn s; s.outer = c.outer; s.holes = c.holes; std::string t = s.text(); return t.substr(0, t.find(" seeds")); }

// membership of one point in the region as observed through its API
static bool regionHas(Region& r, V p) {
    if (!r.containsPoint(Point(p.x, p.y))) return false;
    for (auto& h : r.getHoles()) if (h.containsPoint(Point(p.x, p.y))) return false;
    return true;
}

// adds the holes one after the other; `size` is the typical length of the domain
static void runCfg(const Cfg& cfg, double size, Case& c) {
    double gap = 0.02 * size / 20, sc = DelynoiConfig::instance()->getScale(), q = 1 / sc;
    Scn t; t.outer = cfg.outer;
    Pts po = P(cfg.outer); Region r(po); c.op();
    g::Poly cur = cfg.outer, exact = cfg.outer; std::vector<g::Poly> inner;
    double perim = 0; for (size_t i = 0; i < cfg.outer.size(); i++) perim += g::dist(cfg.outer[i], cfg.outer[(i + 1) % cfg.outer.size()]);
    bool any = false;
    for (size_t n = 0; n < cfg.holes.size(); n++) {
        g::Poly hp = t.holePoly(cfg.holes[n]);
        Kind k = kindOf(cur, hp, gap);
        for (auto& i : inner) {     // interior holes stay clear of the others
            for (auto& v : hp) if (g::where(i, v, gap) >= 0) k = DOUBTFUL;
            for (auto& v : i) if (g::where(hp, v, gap) >= 0) k = DOUBTFUL;
            for (size_t a = 0; a < hp.size(); a++) for (size_t b = 0; b < i.size(); b++) if (g::properCross(hp[a], hp[(a + 1) % hp.size()], i[b], i[(b + 1) % i.size()], 0)) k = DOUBTFUL;
        }
        if (k == CROSS) { auto l = minusHole(cur, hp); if (l.size() != 1) k = DOUBTFUL; else cur = l[0]; }
        if (k == DOUBTFUL) { c.trivial = !any; return; }
        any = true;
        bool rejected = false;
        Hole hole = makeHole(cfg.holes[n]);
        try { r.addHole(hole); } catch (std::invalid_argument& e) { rejected = true; }
        c.op(2);
        std::string at = "hole " + num(n) + (k == INSIDE ? " (inside)" : k == CROSS ? " (crossing)" : " (outside)");
        if (rejected && k != OUTSIDE) { c.fail("hole-rejected", at + " was not accepted"); return; }
        for (size_t i = 0; i < hp.size(); i++) perim += g::dist(hp[i], hp[(i + 1) % hp.size()]);
        if (k == INSIDE) inner.push_back(hp);
        double area = std::fabs(g::sarea(cur)); for (auto& i : inner) area -= std::fabs(g::sarea(i));
        // outline and holes as recorded
        Pts all = r.getRegionPoints(); auto& hs = r.getHoles(); size_t no = all.size(); for (auto& h : hs) no -= h.getPoints().size();
        g::Poly out = vs(Pts(all.begin(), all.begin() + no));
        if (hs.size() != inner.size()) { c.fail("holes-recorded", at + ": " + num(hs.size()) + " interior holes recorded, " + num(inner.size()) + " expected"); return; }
        for (size_t i = 0; i < hs.size(); i++) {
            g::Poly p = vs(hs[i].getPoints());
            if (p.size() != inner[i].size()) { c.fail("hole-shape", at + ": recorded hole " + num(i) + " is " + g::str(p)); return; }
            for (size_t j = 0; j < p.size(); j++) if (g::dist(p[j], inner[i][j]) > 1e-9 * (size + std::fabs(p[j].x) + std::fabs(p[j].y))) { c.fail("hole-shape", at + ": recorded hole " + num(i) + " is " + g::str(p)); return; }
            if (g::where(inner[i], v(hs[i].getCenter()), 1e-6 * size) <= 0) { c.fail("hole-center", at + ": the center " + g::str(v(hs[i].getCenter())) + " of hole " + num(i) + " is not inside of it"); return; }
        }
        if (k == INSIDE) {
            if (out.size() != exact.size()) { c.fail("outline-changed", at + ": outline " + g::str(out) + " was " + g::str(exact)); return; }
            for (size_t j = 0; j < out.size(); j++) if (!(out[j] == exact[j])) { c.fail("outline-changed", at + ": outline " + g::str(out) + " was " + g::str(exact)); return; }
        }
        exact = out;
        double got = std::fabs(g::sarea(out)); for (auto& h : hs) got -= std::fabs(g::sarea(vs(h.getPoints())));
        double tol = 3 * q * perim + 1e-9 * area;
        if (std::fabs(got - area) > tol) { c.fail("area", at + ": the region measures " + num(got) + ", the domain without the holes " + num(area) + "; outline " + g::str(out)); return; }
        double rep = std::fabs(r.getArea(all)) ; c.op(2);
        if (std::fabs(rep - std::fabs(g::sarea(out))) > 1e-6 * area) { c.fail("outline-area", at + ": getArea " + num(rep) + " outline " + num(g::sarea(out))); return; }
        if (g::definitelyCrosses(out, 2 * q)) { c.fail("outline-crosses", at + ": " + g::str(out)); return; }
        // membership on a lattice
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : cfg.outer) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
        double s = size / 14, e = std::max(std::max(4 * q, 1e-6 * size), outlineResolution(cfg.outer));
        for (double x = x0 - s * 0.9; x < x1 + s; x += s) for (double y = y0 - s * 0.7; y < y1 + s; y += s) {
            V p{x, y}; bool want = g::insideRaw(cur, p), close = g::bndDist(cur, p) < e;
            for (auto& h : inner) { want = want && !g::insideRaw(h, p); close = close || g::bndDist(h, p) < e; }
            if (close) continue;
            bool shape = g::insideRaw(out, p); for (auto& h : inner) shape = shape && !g::insideRaw(h, p);
            if (shape != want) { c.fail("membership", at + ": point " + g::str(p) + " is " + (want ? "in" : "not in") + " the domain without the holes, but the outline is " + g::str(out)); return; }
            if (regionHas(r, p) != want) { c.fail("api-membership", at + ": point " + g::str(p) + " should be " + (want ? "inside" : "outside")); return; }
            c.op();
        }
        uint64_t h = hs.size(); for (auto& p : out) h = hv(h, p); c.state(h);
    }
}

static std::vector<std::pair<std::string, g::Poly>> domains() {
    std::vector<std::pair<std::string, g::Poly>> r;
    r.push_back({"square", {{0, 0}, {20, 0}, {20, 20}, {0, 20}}});
    r.push_back({"L", {{10, 0}, {20, 0}, {20, 20}, {0, 20}, {0, 10}, {10, 10}}});
    r.push_back({"U", {{0, 0}, {20, 0}, {20, 20}, {13, 20}, {13, 7}, {7, 7}, {7, 20}, {0, 20}}});
    r.push_back({"romboid", {{0, 0}, {16, 1}, {20, 14}, {4, 13}}});
    r.push_back({"star", {{10, 0}, {12, 6}, {20, 7}, {14, 11}, {16, 19}, {10, 14}, {4, 19}, {6, 11}, {0, 7}, {8, 6}}});
    r.push_back({"triangle", {{0, 0}, {20, 2}, {8, 19}}});
    r.push_back({"clockwise L", {{10, 10}, {0, 10}, {0, 20}, {20, 20}, {20, 0}, {10, 0}}});
    return r;
}
static std::vector<std::function<HoleSpec(V)>> shapes() {
    std::vector<std::function<HoleSpec(V)>> s;
    auto poly = [](g::Poly b) { return [=](V o) { HoleSpec h; for (auto& v : b) h.poly.push_back({o.x + v.x, o.y + v.y}); return h; }; };
    s.push_back(poly({{-1.5, -1.5}, {1.5, -1.5}, {1.5, 1.5}, {-1.5, 1.5}}));
    s.push_back(poly({{-2.6, -1.1}, {2.3, -1.4}, {0.4, 2.7}}));
    s.push_back([](V o) { HoleSpec h; h.circle = true; h.c = o; h.r = 1.8; return h; });
    s.push_back(poly({{-0.3, -4}, {-0.3, 4}, {0.3, 4}, {0.3, -4}}));                 // long, clockwise
    s.push_back(poly({{-6, -0.5}, {6, -0.5}, {6, 0.5}, {-6, 0.5}}));
    s.push_back(poly({{-2, -2}, {2, -2}, {2, 2}, {1.4, 2}, {1.4, -1.4}, {-1.4, -1.4}, {-1.4, 2}, {-2, 2}}));   // U; interior only (not convex)
    s.push_back(poly({{-2, -2}, {2, -2}, {2, 2}, {0.2, 2}, {0.2, 0}, {-2, 0}}));
    return s;
}
static HoleSpec mapHole(const g::Affine& a, const HoleSpec& h) {
    HoleSpec r = h; r.poly = g::apply(a, h.poly); if (h.circle) { r.c = g::apply(a, h.c); r.r = h.r * a.sx; } return r;
}
static const g::Affine PL[] = {{1, 0, 0, 0, ""}, {1, 0, -10.4, -9.3, "around the origin"}, {0.05, 0, 0.3, 0.2, "small"}, {3, 0.7, -300, 120, "rotated"}, {2000, 0, -13000, 30000, "large"}, {50, 0.3, 2e6, -3e6, "far"}, {1e5, 0, 4e6, 4e6, "beyond 32 bits once scaled"}, {1, 0.4, 452000.25, 4181000.5, "geographic"}};

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one sequence of addHole on a new region; trivial when the first placement is left out (hole boundary within 0.1% of the domain size of a foreign corner, domain split or covered, interior holes that touch another)";
        bool th = e.thorough();
        auto dom = std::make_shared<std::vector<std::pair<std::string, g::Poly>>>(domains()); auto sh = std::make_shared<std::vector<std::function<HoleSpec(V)>>>(shapes());
        int nd = dom->size(), ns = sh->size();
        {   // one hole anywhere
            int N = th ? 96 : 48; double st = 24.0 / N;
            auto get = [=](uint64_t i, double& size) { Dec d(i); int x = d.take(N + 1), y = d.take(N + 1), s = d.take(ns), a = d.take(nd);
                V o{-2 + x * st + 0.013, -2 + y * st + 0.007}; Cfg c; c.outer = (*dom)[a].second; c.holes = {(*sh)[s](o)}; size = 20; 
                return c; };
            e.add("one hole at every position of a lattice", (uint64_t)(N + 1) * (N + 1) * ns * nd, 400, [=](uint64_t i, Case& c) {
                double size; Cfg f = get(i, size);
                runCfg(f, size, c);
            }, [=](uint64_t i) { double s; return text(get(i, s)); });
        }
        {   // one hole, every placement of the coordinates
            int N = th ? 24 : 12; double st = 24.0 / N; int np = sizeof(PL) / sizeof(*PL);
            auto get = [=](uint64_t i, double& size) { Dec d(i); int p = d.take(np), x = d.take(N + 1), y = d.take(N + 1), s = d.take(5), a = d.take(nd);
                V o{-2 + x * st + 0.213, -2 + y * st + 0.107}; Cfg c; c.outer = g::apply(PL[p], (*dom)[a].second); c.holes = {mapHole(PL[p], (*sh)[s](o))}; size = 20 * PL[p].sx; return c; };
            e.add("one hole, placements of the coordinates", (uint64_t)np * (N + 1) * (N + 1) * 5 * nd, 200, [=](uint64_t i, Case& c) { double s; Cfg f = get(i, s); runCfg(f, s, c); }, [=](uint64_t i) { double s; return text(get(i, s)); });
        }
        {   // two holes, in both orders
            int N = th ? 8 : 5; double st = 24.0 / N; int S = 4;
            uint64_t m = (uint64_t)(N + 1) * (N + 1) * S;
            auto get = [=](uint64_t i, double& size) { Dec d(i); Cfg c; int a = d.take(nd); c.outer = (*dom)[a].second; size = 20;
                for (int k = 0; k < 2; k++) { int x = d.take(N + 1), y = d.take(N + 1), s = d.take(S); c.holes.push_back((*sh)[s](V{-2 + x * st + 0.113 + 0.29 * k, -2 + y * st + 0.057 - 0.21 * k})); }
                return c; };
            e.add("two holes, every pair of positions in both orders", m * m * nd, 1000, [=](uint64_t i, Case& c) { double s; Cfg f = get(i, s); runCfg(f, s, c); }, [=](uint64_t i) { double s; return text(get(i, s)); });
        }
        {   // many holes one after the other
            int ops = th ? 5 : 4; const int K = 12;
            static const double X[K] = {-0.3, 20.2, 9.1, 5.2, 14.7, 10.4, 3.3, 16.9, 6.6, 13.3, 0.4, 19.4}, Y[K] = {4.1, 9.3, 20.4, -0.2, 0.3, 10.6, 15.2, 15.7, 6.1, 5.4, 12.8, 18.8};
            uint64_t tot = 1; for (int k = 0; k < ops; k++) tot *= K; tot *= 2;
            auto get = [=](uint64_t i, double& size) { Dec d(i); Cfg c; int a = d.take(2); c.outer = (*dom)[a].second; size = 20;
                std::set<int> used; for (int k = 0; k < ops; k++) { int q = d.take(K); if (!used.insert(q).second) continue; c.holes.push_back((*sh)[q % 3]({X[q], Y[q]})); } return c; };
            e.add("sequences of holes", tot, 400, [=](uint64_t i, Case& c) { double s; Cfg f = get(i, s); runCfg(f, s, c); }, [=](uint64_t i) { double s; return text(get(i, s)); });
        }
        {   // many holes: inside in rows, biting along the border, both; outlines of many corners
            auto get = [=](uint64_t i, double& size) { Dec d(i); int w = d.take(3), sh = d.take(3), k = d.take(4), rev = d.take(2), dm = d.take(8); Cfg c; size = 40; int per = k + 3;
                g::Poly o = dm < 2 ? (*dom)[dm].second : g::bigPoly(dm - 1 == 1 ? 0 : dm - 1, 64); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& v : o) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); } double f = 40 / std::max(x1 - x0, y1 - y0); for (auto& v : o) v = {f * (v.x - x0), f * (v.y - y0)}; c.outer = o;
                double st = 40.0 / per, r = 0.3 * st; auto hole = [&](V p, int n) { HoleSpec h; int q = sh == 2 ? n % 2 : sh; if (q == 0) { h.circle = true; h.c = p; h.r = r; } else h.poly = {{p.x - r, p.y - 0.9 * r}, {p.x + 1.05 * r, p.y - r}, {p.x + r, p.y + 0.97 * r}, {p.x - 0.93 * r, p.y + r}}; return h; }; int n = 0;
                if (w != 1) for (int x = 0; x < per; x++) for (int y = 0; y < per; y++) { V p{(x + 0.513) * st, (y + 0.487) * st}; if (g::where(o, p, 1.6 * r) > 0) c.holes.push_back(hole(p, n++)); }
                if (w != 0 && dm < 3) for (int x = 0; x < per; x++) for (int sd = 0; sd < 4; sd++) { double t = (x + 0.53) * st; V p = sd == 0 ? V{t, -0.3 * r} : sd == 1 ? V{40 + 0.3 * r, t} : sd == 2 ? V{40 - t, 40 + 0.3 * r} : V{-0.3 * r, 40 - t}; if (kindOf(o, c.holes.empty() ? hole(p, n).poly : hole(p, n).poly, 0) == OUTSIDE && !hole(p, n).circle) continue; c.holes.push_back(hole(p, n++)); }
                if (rev) std::reverse(c.holes.begin(), c.holes.end()); return c; };
            e.add("many holes", 3 * 3 * 4 * 2 * 8, 1, [=](uint64_t i, Case& c) { double s; Cfg f = get(i, s); if (f.holes.empty()) { c.trivial = true; return; } runCfg(f, s, c); }, [=](uint64_t i) { double s; return "number " + num(i) + " " + text(get(i, s)).substr(0, 400); });
        }
        {   // holes of many corners, round and toothed, in both directions, inside and across the outline
            static const int NC[] = {5, 9, 16, 24, 33, 64, 100, 128, 250}; int nn = th ? 9 : 8, N = th ? 12 : 6; double st = 24.0 / N;
            auto get = [=](uint64_t i, double& size) { Dec d(i); int x = d.take(N + 1), y = d.take(N + 1), n = NC[d.take(nn)], tooth = d.take(2), rev = d.take(2), r = d.take(2), a = d.take(nd); V o{-2 + x * st + 0.137, -2 + y * st + 0.219}; Cfg c; c.outer = (*dom)[a].second; HoleSpec h; double rad = r ? 3.1 : 1.3;
                for (int k = 0; k < n; k++) { double q = rad * (tooth && k % 2 ? 0.8 : 1), t = 2 * M_PI * k / n + 0.1; h.poly.push_back({o.x + q * std::cos(t), o.y + q * std::sin(t)}); } if (rev) std::reverse(h.poly.begin(), h.poly.end()); c.holes = {h}; size = 20; return c; };
            e.add("holes of many corners", (uint64_t)(N + 1) * (N + 1) * nn * 8 * nd, 60, [=](uint64_t i, Case& c) { double s; Cfg f = get(i, s); runCfg(f, s, c); }, [=](uint64_t i) { double s; return text(get(i, s)).substr(0, 600); });
        }
        // other clipping scales
        {
            static const int SC[] = {1000, 10000, 100000, 1000000, 10000000}, PRC[] = {6, 1, 3, 12}; int N = 12; double st = 2.0;
            auto get = [=](uint64_t i, double& size, int& sc, int& pr) { Dec d(i); sc = SC[d.take(5)]; pr = PRC[d.take(4)]; int x = d.take(N + 1), y = d.take(N + 1), s = d.take(3), a = d.take(nd); Cfg c; c.outer = (*dom)[a].second; c.holes = {(*sh)[s](V{-2 + x * st + 0.413, -2 + y * st + 0.307})}; size = 20; return c; };
            e.add("other clipping scales and precisions", 20ull * (N + 1) * (N + 1) * 3 * nd, 200, [=](uint64_t i, Case& c) {
                double s; int sc, pr; Cfg f = get(i, s, sc, pr); DelynoiConfig* k = DelynoiConfig::instance(); int old = k->getScale(), oldP = k->getPrecision(); k->setScale(sc); k->setPrecision(pr);
                try { runCfg(f, s, c); } catch (std::exception& x) { c.fail("unexpected-exception", x.what()); } k->setScale(old); k->setPrecision(oldP);
            }, [=](uint64_t i) { double s; int sc, pr; Cfg f = get(i, s, sc, pr); return "scale " + num(sc) + " precision " + num(pr) + " " + text(f); });
        }
        // known defect, see known_findings.txt: a hole that cuts the domain in two is kept as an interior hole
        e.add("holes that split the domain", 2, 1, [](uint64_t i, Case& c) {
            Pts p = P(g::Poly{{0, 0}, {20, 0}, {20, 20}, {0, 20}}), h = i ? P(g::Poly{{-2, 8}, {22, 8}, {22, 12}, {-2, 12}}) : P(g::Poly{{9, -1}, {11, -1}, {11, 21}, {9, 21}});
            Region r(p); bool threw = false; try { r.addHole(PolygonalHole(h)); } catch (std::exception&) { threw = true; } c.op(2);
            if (threw) return;
            for (auto& q : r.getHoles()) for (auto& x : q.getPoints()) if (!g::insideRaw({{0, 0}, {20, 0}, {20, 20}, {0, 20}}, v(x))) { c.fail("hole-outside-recorded", "a hole that cuts the domain in two is recorded as interior, with corner " + g::str(v(x)) + " outside"); return; }
        }, [](uint64_t i) { return std::string(i ? "band across the square" : "band down the square"); });
    });
}
